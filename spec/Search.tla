------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Breadth first searches over a graph of kernels (C17).                   *)
(*                                                                         *)
(* A graph is given by                                                     *)
(*   E  the streams, a set of <<u, p, v, q>>: port p of kernel u feeds     *)
(*      port q of kernel v                                                 *)
(*   U  the output ports that are connected to nothing, a set of <<u, p>>  *)
(* A search starts at a set S of kernels and hands every stream (or every  *)
(* kernel) it reaches to a callback; a strict one is refused when it       *)
(* reaches an unconnected port.                                            *)
(*                                                                         *)
(* This module says what the calls have to be, for any graph.  Traverse is *)
(* a search as a state machine; TLC checks for all small graphs that it    *)
(* makes such calls.  TraverseTrace judges the calls the real library      *)
(* makes.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Next1(E, X) == X \cup {e[3] : e \in {e \in E : e[1] \in X}}
RECURSIVE ReachOf(_, _)
ReachOf(E, X) == IF Next1(E, X) = X THEN X ELSE ReachOf(E, Next1(E, X))

\* how many streams away from S a kernel is
RECURSIVE Levels(_, _, _)
Levels(E, X, Seen) ==
  LET new == {e[3] : e \in {e \in E : e[1] \in X}} \ Seen
  IN IF new = {} THEN <<X>> ELSE <<X>> \o Levels(E, new, Seen \cup new)
Dist(E, S) == LET L == Levels(E, S, S) IN [k \in ReachOf(E, S) |-> CHOOSE d \in 1..Len(L) : k \in L[d]]

Once(q) == Cardinality(ToSet(q)) = Len(q)

\* the calls of a complete search by streams, and by kernels
EdgeCalls(E, S, cb) ==
  LET R == ReachOf(E, S)   D == Dist(E, S)
  IN /\ Once(cb)
     /\ ToSet(cb) = {e \in E : e[1] \in R}
     /\ \A i \in 1..(Len(cb) - 1) : D[cb[i][1]] <= D[cb[i + 1][1]]
VertexCalls(E, S, cb) ==
  LET D == Dist(E, S)
  IN /\ Once(cb)
     /\ ToSet(cb) = ReachOf(E, S)
     /\ \A i \in 1..(Len(cb) - 1) : D[cb[i]] <= D[cb[i + 1]]
\* a strict search is refused exactly when there is an unconnected port in
\* reach, after part of the calls
StrictCalls(E, U, S, cb, refused) ==
  LET R == ReachOf(E, S)
  IN /\ refused <=> \E u \in U : u[1] \in R
     /\ IF refused THEN Once(cb) /\ ToSet(cb) \subseteq {e \in E : e[1] \in R} ELSE EdgeCalls(E, S, cb)
=============================================================================
