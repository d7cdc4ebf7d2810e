------------------------------ MODULE Stream ------------------------------
(***************************************************************************)
(* The abstract meaning of a RaftLib stream (class FIFO) for one writing   *)
(* and one reading thread.                                                 *)
(*                                                                         *)
(* A stream is a record                                                    *)
(*   q      the published, unread elements: a sequence of [v, s]           *)
(*   cap    the capacity                                                   *)
(*   closed TRUE once the stream was closed                                *)
(*   rv,rk  values written into the reserved, unpublished slots, and       *)
(*          whether one slot or a range is reserved ("no", "one", "range")  *)
(*   held   number of elements the reader is looking at (peek)             *)
(*   lk     TRUE from a peek until the reader says it is done (unpeek):     *)
(*          what it holds must stay where it is                             *)
(*   pub, con   how many elements were ever published / consumed           *)
(*                                                                         *)
(* An operation in progress is a record [op, a, s, out, x, ph]:            *)
(*   a   its value arguments (a sequence; a[1] is the count for the ops    *)
(*       that take a count)      s    its signal argument                  *)
(*   out what it has returned so far: a sequence of [v, s]                 *)
(*   x   "run" while in progress, then the outcome:                        *)
(*       "ok", "closed" (port closed) or "nodata" (too little data left)   *)
(*   ph  phase, for the operations that are not one atomic step            *)
(*                                                                         *)
(* Step(st, o) is the set of [st, o] reachable by ONE atomic step of the   *)
(* operation o; it is empty when o has to wait (for room, or for data).    *)
(* All other modules (replay, trace validation, refinement by the ring     *)
(* implementation) are built on Step.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

None == 0          \* the signal of an element sent without one

Idle == [op |-> "idle", a |-> <<>>, s |-> 0, out |-> <<>>, x |-> "ok", ph |-> 0]

Op(name, args, sig) ==
  [op |-> name, a |-> args, s |-> sig, out |-> <<>>, x |-> "run", ph |-> 0]

NewStream(c) ==
  [q |-> <<>>, cap |-> c, closed |-> FALSE, rv |-> <<>>, rk |-> "no", held |-> 0, lk |-> FALSE,
   pub |-> 0, con |-> 0]

El(val, sig) == [v |-> val, s |-> sig]

Room(st) == st.cap - Len(st.q)

Ok(o)        == [o EXCEPT !.x = "ok"]
Closed(o)    == [o EXCEPT !.x = "closed"]
NoData(o)    == [o EXCEPT !.x = "nodata"]
Out(o, e)    == [o EXCEPT !.out = Append(@, e)]
OutMany(o,t) == [o EXCEPT !.out = @ \o t]

Put(st, e)   == [st EXCEPT !.q = Append(@, e), !.pub = @ + 1]
Drop(st)     == [st EXCEPT !.q = Tail(@), !.con = @ + 1, !.held = 0]

Result(st, o) == {[st |-> st, o |-> o]}

-----------------------------------------------------------------------------
(* writer operations                                                        *)

StepPush(st, o) ==
  IF Room(st) > 0 THEN Result(Put(st, El(o.a[1], o.s)), Ok(o)) ELSE {}

\* iterator write: element by element, the signal goes with the last one
StepInsert(st, o) ==
  IF o.ph = Len(o.a) THEN Result(st, Ok(o))
  ELSE IF Room(st) = 0 THEN {}
  ELSE LET i   == o.ph + 1
           sig == IF i = Len(o.a) THEN o.s ELSE None
           p   == [o EXCEPT !.ph = i]
       IN  Result(Put(st, El(o.a[i], sig)), IF i = Len(o.a) THEN Ok(p) ELSE p)

\* reserve a slot and write o.a[1] into it
StepAlloc(st, o) ==
  IF Room(st) > 0 THEN Result([st EXCEPT !.rv = <<o.a[1]>>, !.rk = "one"], Ok(o)) ELSE {}

\* reserve a range of slots and write o.a into it
StepAllocRange(st, o) ==
  IF Room(st) >= Len(o.a) THEN Result([st EXCEPT !.rv = o.a, !.rk = "range"], Ok(o)) ELSE {}

PublishReserved(st, sig) ==
  LET n == Len(st.rv)
      e == [i \in 1..n |-> El(st.rv[i], IF i = n THEN sig ELSE None)]
  IN  [st EXCEPT !.q = @ \o e, !.rv = <<>>, !.rk = "no", !.pub = @ + n]

StepSend(st, o)    == Result(PublishReserved(st, o.s), Ok(o))
StepDealloc(st, o) == Result([st EXCEPT !.rv = <<>>, !.rk = "no"], Ok(o))

\* scoped reservation: reserve, then publish when the scope is left
StepAllocS(st, o) ==
  IF o.ph = 0
  THEN IF Room(st) > 0 THEN Result([st EXCEPT !.rv = <<o.a[1]>>, !.rk = "one"], [o EXCEPT !.ph = 1]) ELSE {}
  ELSE Result(PublishReserved(st, o.s), Ok(o))

StepClose(st, o) == Result([st EXCEPT !.closed = TRUE], Ok(o))

-----------------------------------------------------------------------------
(* reader operations                                                        *)

StepPop(st, o) ==
  IF st.q /= <<>> THEN Result(Drop(st), Ok(Out(o, Head(st.q))))
  ELSE IF st.closed THEN Result(st, Closed(o))
  ELSE {}

\* pop into a variable, signal not asked for
StepPopN(st, o) ==
  IF st.q /= <<>> THEN Result(Drop(st), Ok(Out(o, El(Head(st.q).v, None))))
  ELSE IF st.closed THEN Result(st, Closed(o))
  ELSE {}

\* scoped pop: look at the element, consume it when the scope is left
StepPopS(st, o) ==
  IF o.ph = 0
  THEN IF st.q /= <<>> THEN Result([st EXCEPT !.lk = TRUE], [Out(o, Head(st.q)) EXCEPT !.ph = 1])
       ELSE IF st.closed THEN Result(st, Closed(o))
       ELSE {}
  ELSE Result([Drop(st) EXCEPT !.lk = FALSE], Ok(o))

\* range pop of o.a[1] elements, one by one
StepPopRange(st, o) ==
  IF Len(o.out) = o.a[1] THEN Result(st, Ok(o))
  ELSE IF st.q /= <<>>
       THEN LET p == Out(o, Head(st.q))
            IN  Result(Drop(st), IF Len(p.out) = o.a[1] THEN Ok(p) ELSE p)
  ELSE IF st.closed THEN Result(st, Closed(o))
  ELSE {}

StepPeek(st, o) ==
  IF st.q /= <<>> THEN Result([st EXCEPT !.held = 1, !.lk = TRUE], Ok(Out(o, Head(st.q))))
  ELSE IF st.closed THEN Result(st, Closed(o))
  ELSE {}

\* look again at the elements held, through the references obtained earlier
StepLook(st, o) == Result(st, Ok(OutMany(o, SubSeq(st.q, 1, st.held))))

StepUnpeek(st, o) == Result([st EXCEPT !.held = 0, !.lk = FALSE], Ok(o))

StepPeekRange(st, o) ==
  LET n == o.a[1]
  IN  IF Len(st.q) >= n
      THEN Result([st EXCEPT !.held = n, !.lk = TRUE], Ok(OutMany(o, SubSeq(st.q, 1, n))))
      ELSE IF st.closed /\ st.q = <<>> THEN Result(st, Closed(o))
      ELSE IF st.closed THEN Result(st, NoData(o))
      ELSE {}

\* discard o.a[1] elements one by one; stops silently on an exhausted
\* closed stream
StepRecycle(st, o) ==
  IF o.ph = o.a[1] THEN Result(st, Ok(o))
  ELSE IF st.q /= <<>>
       THEN Result(Drop(st), [o EXCEPT !.ph = @ + 1])
  ELSE IF st.closed THEN Result(st, Ok(o))
  ELSE {}

-----------------------------------------------------------------------------
(* the resizing thread: the new capacity takes effect at one instant at     *)
(* which the writer holds no reservation and the reader holds no element    *)

StepResize(st, o) ==
  IF st.closed THEN Result(st, Ok(o))         \* abandoned
  ELSE IF st.rk = "no" /\ ~st.lk /\ o.a[1] >= Len(st.q)
       THEN Result([st EXCEPT !.cap = o.a[1]], Ok(o))
  ELSE {}

-----------------------------------------------------------------------------
(* questions anybody may ask at any time; the number of free slots is worked *)
(* out from the number of elements at one moment and the capacity at a later *)
(* one                                                                      *)

Answer(o, n) == Out(o, El(n, None))

StepRoom(st, o) ==
  IF o.ph = 0 THEN Result(st, [o EXCEPT !.ph = 1, !.a = <<Len(st.q)>>])
  ELSE Result(st, Ok(Answer(o, st.cap - o.a[1])))

Step(st, o) ==
  IF o.x /= "run" THEN {}
  ELSE CASE o.op \in {"push", "pushm"}        -> StepPush(st, o)
         [] o.op \in {"insl", "insv"}         -> StepInsert(st, o)
         [] o.op = "alloc"                    -> StepAlloc(st, o)
         [] o.op = "allocr"                   -> StepAllocRange(st, o)
         [] o.op \in {"send", "sendr"}        -> StepSend(st, o)
         [] o.op = "dealloc"                  -> StepDealloc(st, o)
         [] o.op = "allocs"                   -> StepAllocS(st, o)
         [] o.op = "close"                    -> StepClose(st, o)
         [] o.op = "pop"                      -> StepPop(st, o)
         [] o.op = "popn"                     -> StepPopN(st, o)
         [] o.op = "pops"                     -> StepPopS(st, o)
         [] o.op = "popr"                     -> StepPopRange(st, o)
         [] o.op = "peek"                     -> StepPeek(st, o)
         [] o.op = "look"                     -> StepLook(st, o)
         [] o.op = "unpeek"                   -> StepUnpeek(st, o)
         [] o.op = "peekr"                    -> StepPeekRange(st, o)
         [] o.op = "recycle"                  -> StepRecycle(st, o)
         [] o.op = "resize"                   -> StepResize(st, o)
         [] o.op = "size"                     -> Result(st, Ok(Answer(o, Len(st.q))))
         [] o.op = "room"                     -> StepRoom(st, o)
         [] o.op = "cap"                      -> Result(st, Ok(Answer(o, st.cap)))
         [] o.op = "closed"                   -> Result(st, Ok(Answer(o, IF st.closed THEN 1 ELSE 0)))
         [] OTHER                             -> {}

Waiting(st, o) == o.x = "run" /\ Step(st, o) = {}

-----------------------------------------------------------------------------
(* what every reachable stream state satisfies                              *)

StreamOK(st) ==
  /\ Len(st.q) + Len(st.rv) <= st.cap
  /\ st.pub - st.con = Len(st.q)
  /\ st.held <= Len(st.q)
  /\ st.held > 0 => st.lk
=============================================================================
