-------------------------- MODULE IdentitiesGen --------------------------
(* all plans of Threads threads that make up to Max kernels each           *)
EXTENDS Identities

CONSTANTS Threads, Max

VARIABLES todo, used, made, plan
vars == <<todo, used, made, plan>>
Plans == {p \in UNION {[1..n -> Kinds] : n \in 1..Max} : Legal(p)}
\* the order of the threads makes no difference
Init == /\ plan \in {f \in [1..Threads -> Plans] : \A i \in 1..Threads - 1 : Len(f[i]) >= Len(f[i + 1])}
        /\ todo = plan /\ used = {} /\ made = 0
Make(t) == /\ todo[t] # <<>>
           /\ LET id == Cardinality(used) IN MayGet(used, id) /\ used' = Get(used, id)
           /\ todo' = [todo EXCEPT ![t] = Tail(@)]
           /\ made' = made + 1 /\ UNCHANGED plan
Next == \E t \in 1..Threads : Make(t)
Spec == Init /\ [][Next]_vars
Distinct == Cardinality(used) = made
Emit == made > 0 \/ PrintT("X " \o ToJson(plan))
=============================================================================
