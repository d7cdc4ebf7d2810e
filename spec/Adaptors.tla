------------------------------ MODULE Adaptors ------------------------------
(***************************************************************************)
(* The ready-made kernels between streams and containers, files or text    *)
(* (C20): several streams are fed, one batch after the other, and end in   *)
(* one sink that takes from all of them (print, write_each, a kernel that  *)
(* selects among its inputs). On the way every element passes stages that  *)
(* map it. A batch gives each stream a sequence of elements, the next one  *)
(* follows when all of it has reached the sink.                            *)
(*                                                                         *)
(* st: [b: batches given, q: what each stream still holds]                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Start(k) == [b |-> 0, q |-> [i \in 1..k |-> <<>>]]
Drained(st) == \A i \in DOMAIN st.q : st.q[i] = <<>>
MayFeed(st, batches) == Drained(st) /\ st.b < Len(batches)
Feed(st, batches) == [b |-> st.b + 1, q |-> batches[st.b + 1]]
MayTake(st, i) == st.q[i] # <<>>
Taken(st, i) == Head(st.q[i])
Take(st, i) == [st EXCEPT !.q[i] = Tail(@)]
Over(st, batches) == Drained(st) /\ st.b = Len(batches)

\* the elements of all streams together, one of each at a time
Together(st, op) == LET n == Len(st.q) IN
  IF op = "sum" THEN FoldSeq(LAMBDA x, a : x + a, 0, [i \in 1..n |-> Head(st.q[i])])
  ELSE FoldSeq(LAMBDA x, a : x * a, 1, [i \in 1..n |-> Head(st.q[i])])
MayTakeAll(st) == \A i \in DOMAIN st.q : st.q[i] # <<>>
TakeAll(st) == [st EXCEPT !.q = [i \in DOMAIN st.q |-> Tail(st.q[i])]]

\* n stages add 1000 each
Image(e, n) == e + 1000 * n
\* with what a sink writes for one element
Printed(e, n, delim) == ToString(Image(e, n)) \o delim
=============================================================================
