----------------------------- MODULE RangesTrace -----------------------------
(***************************************************************************)
(* Judges what raft::range returned: results.json is a sequence of         *)
(*   [a, b, d, obs: sequence of [t: the type, out: numbers]]               *)
(***************************************************************************)
EXTENDS Ranges, TLC, Json

CONSTANT Step
Results == JsonDeserialize("results.json")
VARIABLES i

Wrong(R, o) ==
  LET want == Range(R.a, R.b, R.d) IN
  IF o = want THEN {}
  ELSE IF Len(o) # Len(want) THEN {"length"} ELSE {"values"}
Complaints(R) == UNION {Wrong(R, R.obs[j].out) : j \in DOMAIN R.obs}
                 \cup (IF Len(R.obs) = 0 THEN {"nothing"} ELSE {})

Init == i \in 1..Step
Next == i + Step <= Len(Results) /\ i' = i + Step
Spec == Init /\ [][Next]_i
Judge ==
  IF i <= Len(Results)
  THEN LET c == Complaints(Results[i]) IN IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i) \o " " \o ToString(c))
  ELSE TRUE
=============================================================================
