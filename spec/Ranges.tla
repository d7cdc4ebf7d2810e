------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* raft::range (C24): the numbers from one end to the other, in steps.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
\* how many numbers there are from a to b in steps of d, both ends included
Count(a, b, d) == Abs(b - a) \div d + 1
Nth(a, b, d, k) == IF a < b THEN a + (k - 1) * d ELSE a - (k - 1) * d
Range(a, b, d) == [k \in 1..Count(a, b, d) |-> Nth(a, b, d, k)]
=============================================================================
