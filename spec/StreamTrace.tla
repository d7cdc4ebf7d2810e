---------------------------- MODULE StreamTrace ----------------------------
(***************************************************************************)
(* Is every recorded execution of the real FIFO a behaviour of Stream?     *)
(*                                                                         *)
(* Each execution is a sequence of events: calls and returns of the        *)
(* operations of the writer (w), the reader (r) and the resizer (z), in    *)
(* the order in which they happened, and one observation at the end.  An   *)
(* operation may take effect at any moment between its call and its        *)
(* return; TLC looks for the moments that explain what was returned.       *)
(* All executions of a batch are checked in one run: each one is an        *)
(* initial state, and OK is printed for each that can be explained to its  *)
(* end.                                                                    *)
(***************************************************************************)
EXTENDS Stream, TLC, Json, Integers

Traces == JsonDeserialize("traces.json")

VARIABLES tr, i, st, w, r, z

vars == <<tr, i, st, w, r, z>>

Ev == Traces[tr].ev

Init == /\ tr \in 1..Len(Traces)
        /\ i = 1
        /\ st = NewStream(Traces[tr].cap)
        /\ w = Idle /\ r = Idle /\ z = Idle

Next1 == i <= Len(Ev)
E == Ev[i]

Call ==
  /\ Next1 /\ E.k = "c"
  /\ LET o == Op(E.op, E.a, E.s)
     IN \/ E.t = "w" /\ w.x # "run" /\ w' = o /\ UNCHANGED <<r, z>>
        \/ E.t = "r" /\ r.x # "run" /\ r' = o /\ UNCHANGED <<w, z>>
        \/ E.t = "z" /\ z.x # "run" /\ z' = o /\ UNCHANGED <<w, r>>
  /\ i' = i + 1
  /\ UNCHANGED <<tr, st>>

\* what was returned is what the specification computed; signal -1: not
\* looked at
SameOut(o, e) ==
  /\ Len(o.out) = Len(e.out)
  /\ \A j \in 1..Len(o.out) : o.out[j].v = e.out[j][1] /\ (e.out[j][2] = -1 \/ o.out[j].s = e.out[j][2])

SameX(o, e) == o.x = e.x

\* what a read that failed had got before is not reported
Matches(o, e) == SameX(o, e) /\ (e.x = "ok" => SameOut(o, e))

Answered(o, e) == SameX(o, e) /\ (e.out # <<>> => SameOut(o, e))

Ret ==
  /\ Next1 /\ E.k = "r"
  /\ \/ E.t = "w" /\ w.x # "run" /\ Answered(w, E) /\ w' = Idle /\ UNCHANGED <<r, z>>
     \/ E.t = "r" /\ r.x # "run" /\ Matches(r, E) /\ r' = Idle /\ UNCHANGED <<w, z>>
     \/ E.t = "z" /\ z.x # "run" /\ Answered(z, E) /\ z' = Idle /\ UNCHANGED <<w, r>>
  /\ i' = i + 1
  /\ UNCHANGED <<tr, st>>

Observe ==
  /\ Next1 /\ E.k = "o"
  /\ E.size = Len(st.q) /\ E.room = Room(st) /\ E.cap = st.cap /\ E.closed = st.closed
  /\ i' = i + 1
  /\ UNCHANGED <<tr, st, w, r, z>>

\* operations take effect only when a return is next: an earlier moment
\* could be put off till then
Internal ==
  /\ Next1 /\ E.k = "r"
  /\ \/ \E c \in Step(st, w) : st' = c.st /\ w' = c.o /\ UNCHANGED <<r, z>>
     \/ \E c \in Step(st, r) : st' = c.st /\ r' = c.o /\ UNCHANGED <<w, z>>
     \/ \E c \in Step(st, z) : st' = c.st /\ z' = c.o /\ UNCHANGED <<w, r>>
     \* closed while it was at it: the resize may still happen
     \/ /\ z.x = "run" /\ z.op = "resize" /\ st.closed /\ st.rk = "no" /\ ~st.lk
        /\ st' = [st EXCEPT !.cap = z.a[1]] /\ z' = Ok(z) /\ UNCHANGED <<w, r>>
  /\ UNCHANGED <<tr, i>>

Next == Call \/ Ret \/ Observe \/ Internal

Spec == Init /\ [][Next]_vars

\* evaluated in every state
Sound == /\ StreamOK(st)
         /\ (i = Len(Ev) + 1 => PrintT("OK " \o ToString(tr)))

\* the longest explained prefix, for reporting (printed for one trace)
Deepest == Len(Traces) = 1 => PrintT("AT " \o ToString(i))
=============================================================================
