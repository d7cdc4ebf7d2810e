---------------------------- MODULE PlacementGen ----------------------------
(***************************************************************************)
(* All programs of Depth placement calls followed by an execution.         *)
(***************************************************************************)
EXTENDS Placement, TLC, Json

CONSTANTS N, CoreVals, GroupVals, Marks, MaxMods, MaxKs, Depth, Machine

VARIABLES st, calls
vars == <<st, calls>>

K == 1..N
Mods == [m : {"core"}, v : CoreVals] \cup [m : {"group"}, v : GroupVals] \cup [m : {"mark"}, v : Marks]
UpTo(S, n) == UNION {[1..j -> S] : j \in 0..n}
Setting == [op : {"bind"}, mods : UpTo(Mods, MaxMods), ks : UpTo(K, MaxKs)] \cup [op : {"core"}, k : K, v : CoreVals]

Init == st = Fresh(K) /\ calls = <<>>
Set == /\ Len(calls) < Depth
       /\ \E c \in Setting :
            /\ calls' = Append(calls, c)
            /\ st' = IF c.op = "bind" THEN Bind(st, c.mods, c.ks) ELSE [st EXCEPT !.core[c.k] = c.v]
Exe == /\ Len(calls) = Depth
       /\ \E part \in {"default", "dummy", "basic", "own"}, n \in Machine :
            /\ calls' = Append(calls, [op |-> "exe", part |-> part, cores |-> n])
            /\ \E core \in {x \in [K -> Cores(n) \cup {UNSET} \cup CoreVals \cup {2 * k + 1 : k \in K}] : Placed(st, part, n, x)} :
                 st' = [st EXCEPT !.core = core]
Next == Set \/ Exe
Spec == Init /\ [][Next]_vars

\* a manipulator changes nothing but the kernels it is bound to
OnlyBound == [][ \A k \in K :
  (Len(calls) < Depth /\ calls'[Len(calls')].op = "bind" /\ ~Contains(calls'[Len(calls')].ks, k))
     => st'.core[k] = st.core[k] /\ st'.group[k] = st.group[k] ]_vars
\* a balanced placement exists for every machine
Feasible == \A n \in Machine : \E x \in [K -> Cores(n)] : Balanced(x, n)
Emit == Len(calls) <= Depth \/ PrintT("X " \o ToJson(calls))
View == calls
=============================================================================
