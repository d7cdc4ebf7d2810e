---------------------------- MODULE PipelineGen ----------------------------
(***************************************************************************)
(* All executions of small programs (programs.json), with bounded streams: *)
(* a write waits for room, a blocking read waits for data or for the       *)
(* closing.  Kernels do what harness/sys/sys.cpp makes the real ones do,   *)
(* operation by operation, and the library's rules are those of Pipeline.  *)
(*                                                                         *)
(* Checked for every program: nothing is ever lost, streams stay within    *)
(* their capacity, and when all is done the execution is Complete.  A      *)
(* program with an execution that gets stuck (two branches of different    *)
(* lengths that are zipped again, say) is reported DEAD: only the others   *)
(* have to terminate on the real library.                                  *)
(***************************************************************************)
EXTENDS Pipeline, TLC, Json

Programs == JsonDeserialize("programs.json")

VARIABLES pr, s, todo, cls

vars == <<pr, s, todo, cls>>
P == Programs[pr]

\* streams without a requested size never fill up in these small programs
Capacity(e) == IF P.edges[e].cap = 0 THEN 64 ELSE P.edges[e].cap

Init == /\ pr \in 1..Len(Programs)
        /\ s = New(Programs[pr])
        /\ todo = [k \in Kernels(Programs[pr]) |-> <<>>]
        /\ cls = [k \in Kernels(Programs[pr]) |-> FALSE]

Op(o, e, m, v) == [o |-> o, e |-> e, m |-> m, v |-> v]

Min(a, b) == IF a < b THEN a ELSE b

\* writes of the elements of v to every output, output by output
WritesOf(k, v) ==
  LET no == Len(Outs(P, k))
  IN IF v = <<>> THEN <<>>
     ELSE IF Kind(P, k) = "fan"
     THEN [j \in 1..Len(v) |-> Op("w", Outs(P, k)[((Len(s.log[k]) + j - 1) % no) + 1], 0, v[j])]
     ELSE [j \in 1..(no * Len(v)) |-> Op("w", Outs(P, k)[((j - 1) \div Len(v)) + 1], 0, v[((j - 1) % Len(v)) + 1])]

\* sources write element by element to every output
RECURSIVE SourceOps(_, _, _)
SourceOps(k, from, m) ==
  IF m = 0 \/ from > P.kernels[k].n THEN <<>>
  ELSE [o \in 1..Len(Outs(P, k)) |-> Op("w", Outs(P, k)[o], 0, Made(k, from, Kind(P, k), P.kernels[k].n))]
       \o SourceOps(k, from + 1, m - 1)
\* "late" ones all elements of an activation to one output, then to the next
LateOps(k, from, m) ==
  LET n == Min(m, P.kernels[k].n + 1 - from)
      el(j) == Made(k, from + j - 1, "late", P.kernels[k].n)
  IN IF n <= 0 THEN <<>>
     ELSE [j \in 1..(n * Len(Outs(P, k))) |-> Op("w", Outs(P, k)[((j - 1) \div n) + 1], 0, el(((j - 1) % n) + 1))]

OpsOf(k) ==
  LET b == P.kernels[k].b
      done == Len(s.hist[Outs(P, k)[1]])
  IN CASE Kind(P, k) = "src"   -> SourceOps(k, done + 1, b)
       [] Kind(P, k) = "late"  -> LateOps(k, done + 1, b)
       [] Kind(P, k) = "wait"  -> <<Op("r", Ins(P, k)[1], 0, <<>>), Op("r", Ins(P, k)[1], 0, <<>>)>>
       [] Kind(P, k) = "cut"   -> [j \in 1..Len(Ins(P, k)) |-> Op("u", Ins(P, k)[j], 1, <<>>)]
       [] Kind(P, k) = "zip"   -> [j \in 1..Len(Ins(P, k)) |-> Op("z", Ins(P, k)[j], 1, <<>>)]
       [] Kind(P, k) = "loop"  -> <<Op("l", Ins(P, k)[2], b, <<>>), Op("l", Ins(P, k)[1], b, <<>>)>>
       [] Kind(P, k) \in {"fwd", "drop"} ->
            (IF Len(s.log[k]) > s.rd[Ins(P, k)[1]] THEN <<Op("y", Ins(P, k)[1], 0, <<>>)>> ELSE <<>>)
            \o <<Op("f", Ins(P, k)[1], IF P.kernels[k].n = 1 THEN 1 ELSE b, <<>>)>>
       [] Kind(P, k) = "split" -> <<Op("split", Ins(P, k)[1], Held(s, Ins(P, k)[1]), <<>>)>>
       [] Kind(P, k) = "join"  -> <<Op("join", 0, 0, <<>>)>>
       [] OTHER                -> [j \in 1..Len(Ins(P, k)) |-> Op("r", Ins(P, k)[j], b, <<>>)]

\* does the activation that ends now say stop?  (late ones: at its start)
Stops(k) ==
  CASE Kind(P, k) = "src"  -> Len(s.hist[Outs(P, k)[1]]) >= P.kernels[k].n
    [] Kind(P, k) = "wait" -> cls[k]
    [] Kind(P, k) = "loop" -> s.rd[Ins(P, k)[2]] >= P.kernels[k].n
    [] Kind(P, k) = "late" -> cls[k]
    [] Kind(P, k) = "cut"  -> Len(s.log[k]) >= P.kernels[k].n
    [] OTHER               -> FALSE

Enter(k) ==
  /\ MayActivate(P, s, k)
  /\ s' = Activate(s, k)
  /\ todo' = [todo EXCEPT ![k] = OpsOf(k)]
  /\ cls' = [cls EXCEPT ![k] = Kind(P, k) = "late" /\ Len(s.hist[Outs(P, k)[1]]) >= P.kernels[k].n]
  /\ UNCHANGED pr

Leave(k) ==
  /\ s.act[k] /\ todo[k] = <<>>
  /\ s' = Return(s, k, Stops(k))
  /\ UNCHANGED <<pr, todo, cls>>

Rest(k) == Tail(todo[k])
\* read m elements of edge e in one go
RECURSIVE ReadN(_, _, _, _)
ReadN(st, k, e, m) == IF m = 0 THEN st ELSE ReadN(Read(st, k, e, st.hist[e][st.rd[e] + 1]), k, e, m - 1)

DoOp(k) ==
  /\ s.act[k] /\ todo[k] # <<>>
  /\ UNCHANGED pr
  /\ LET op == Head(todo[k])
         e  == op.e
     IN \/ /\ op.o = "w" /\ Held(s, e) < Capacity(e)
           /\ s' = Write(s, e, op.v) /\ todo' = [todo EXCEPT ![k] = Rest(k)] /\ UNCHANGED cls
        \/ /\ op.o \in {"r", "u", "z", "l"} /\ op.m > 0
           /\ LET c == IF op.o = "u" /\ Len(s.log[k]) >= P.kernels[k].n THEN 0 ELSE Min(op.m, Held(s, e))
                  v == SubSeq(s.hist[e], s.rd[e] + 1, s.rd[e] + c)
              IN /\ Assert(op.o # "z" \/ c = 1, "activated without data on every input")
                 /\ s' = ReadN(s, k, e, c)
                 /\ todo' = [todo EXCEPT ![k] =
                      IF op.o = "l" THEN [j \in 1..Len(v) |-> Op("w", Outs(P, k)[IF e = Ins(P, k)[1] THEN 2 ELSE 1], 0, v[j])] \o Rest(k)
                      ELSE IF op.o = "z" THEN (IF e = Ins(P, k)[1] THEN Rest(k) \o WritesOf(k, v) ELSE Rest(k))
                      ELSE WritesOf(k, v) \o Rest(k)]
                 /\ UNCHANGED cls
        \/ /\ op.o = "y"
           /\ s' = Drop(s, e) /\ todo' = [todo EXCEPT ![k] = Rest(k)] /\ UNCHANGED cls
        \* what is forwarded keeps its place until it is recycled, which may
        \* be in the next activation only
        \/ /\ op.o = "f"
           /\ IF Held(s, e) = 0 \/ op.m = 0
              THEN todo' = [todo EXCEPT ![k] = Rest(k)] /\ UNCHANGED s
              ELSE LET el == s.hist[e][s.rd[e] + 1]
                       t  == Outs(P, k)[1]
                       on == Kind(P, k) = "fwd" \/ Len(s.log[k]) % 2 = 1
                   IN /\ on => Held(s, t) < Capacity(t)
                      /\ s' = IF on THEN Write(Look(s, k, el), t, el) ELSE Look(s, k, el)
                      /\ todo' = [todo EXCEPT ![k] =
                           IF P.kernels[k].n = 1 THEN Rest(k) ELSE <<Op("y", e, 0, <<>>), Op("f", e, op.m - 1, <<>>)>> \o Rest(k)]
           /\ UNCHANGED cls
        \/ /\ op.o = "r" /\ op.m = 0
           /\ \/ /\ Held(s, e) > 0
                 /\ s' = ReadN(s, k, e, 1)
                 /\ todo' = [todo EXCEPT ![k] = WritesOf(k, <<s.hist[e][s.rd[e] + 1]>>) \o Rest(k)]
                 /\ UNCHANGED cls
              \/ /\ MaySee(P, s, k, e)
                 /\ cls' = [cls EXCEPT ![k] = TRUE] /\ todo' = [todo EXCEPT ![k] = <<>>] /\ UNCHANGED s
        \/ /\ op.o = "split"
           /\ \E t \in OutSet(P, k) : \E m \in 1..Min(op.m, Capacity(t) - Held(s, t)) :
                s' = [s EXCEPT !.rd[e] = @ + m, !.got[e] = 1..(s.rd[e] + m),
                               !.hist[t] = @ \o SubSeq(s.hist[e], s.rd[e] + 1, s.rd[e] + m)]
           /\ todo' = [todo EXCEPT ![k] = Rest(k)] /\ UNCHANGED cls
        \/ /\ op.o = "join"
           /\ LET t == Outs(P, k)[1] IN
              /\ Held(s, t) < Capacity(t)
              /\ IF \E f \in InSet(P, k) : Held(s, f) > 0
                 THEN \E f \in InSet(P, k) :
                        /\ Held(s, f) > 0
                        /\ s' = [s EXCEPT !.rd[f] = @ + 1, !.got[f] = 1..(s.rd[f] + 1), !.hist[t] = Append(@, s.hist[f][s.rd[f] + 1])]
                 ELSE UNCHANGED s
           /\ todo' = [todo EXCEPT ![k] = Rest(k)] /\ UNCHANGED cls

\* the library closes all outputs of a kernel that has finished
Shut(k) ==
  /\ Finished(P, s, k) /\ \E e \in OutSet(P, k) : ~s.closed[e]
  /\ s' = [s EXCEPT !.closed = [e \in Edges(P) |-> @[e] \/ e \in OutSet(P, k)]]
  /\ UNCHANGED <<pr, todo, cls>>

Next == \E k \in Kernels(P) : Enter(k) \/ Leave(k) \/ DoOp(k) \/ Shut(k)

Spec == Init /\ [][Next]_vars

Over == MayReturn(P, s, Kernels(P)) /\ \A e \in Edges(P) : s.closed[e]

RelayDone == \A e \in Edges(P) : Relay(P, Src(P, e)) => Held(s, e) = 0
Safe ==
  /\ \A e \in Edges(P) : Held(s, e) \in 0..Capacity(e)
  /\ \A k \in Kernels(P) : ~Relay(P, k) => \A o \in 1..Len(Outs(P, k)) :
       /\ Len(s.hist[Outs(P, k)[o]]) <= OutLen(P, s, k, o)
       /\ \A j \in 1..Len(s.hist[Outs(P, k)[o]]) : Same(s.hist[Outs(P, k)[o]][j], OutEl(P, s, k, o, j))
  /\ Over => Complete(P, s, Kernels(P))
  /\ Over \/ ENABLED Next \/ PrintT("DEAD " \o ToString(pr))
=============================================================================
