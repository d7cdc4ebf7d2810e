------------------------- MODULE IdentitiesTrace -------------------------
(* results.json: sequence of [plan, obs], obs the identities of the kernels*)
(* in the order in which their construction ended                          *)
EXTENDS Identities

CONSTANT Step
Results == JsonDeserialize("results.json")
VARIABLES i
Init == i \in {j \in DOMAIN Results : j % Step = 1 \/ Step = 1}
Next == i % Step # 0 /\ i + 1 \in DOMAIN Results /\ i' = i + 1
Spec == Init /\ [][Next]_i

RECURSIVE Wrong(_, _)
Wrong(s, used) == IF s = <<>> THEN {} ELSE (IF MayGet(used, Head(s)) THEN {} ELSE {"same-identity"}) \cup Wrong(Tail(s), Get(used, Head(s)))
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE Len(Head(p)) + Total(Tail(p))
Complaints(r) == Wrong(r.obs, {}) \cup (IF Len(r.obs) = Total(r.plan) THEN {} ELSE {"missing-kernel"})
Judge == LET c == Complaints(Results[i]) IN c = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(c))
=============================================================================
