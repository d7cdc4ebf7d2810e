----------------------------- MODULE Placement -----------------------------
(***************************************************************************)
(* Where kernels run (C23).                                                *)
(*                                                                         *)
(* state: [core, group: kernel -> number or UNSET,                         *)
(*         log: <<modifier, kernel>> in the order they were applied]       *)
(* A modifier is [m |-> "core" | "group" | "mark", v].  Calls:             *)
(*   [op |-> "bind", mods, ks]   manip<mods...>::bind(ks...)               *)
(*   [op |-> "core", k, v]       kernel.setCore(v)                         *)
(*   [op |-> "exe", part, cores] execution on a machine with that many     *)
(*          cores (0: unknown, treated as one), part one of                *)
(*            "default", "dummy"  leave the placement as it is             *)
(*            "basic"             spreads the kernels over the cores       *)
(*            "own"               the user's: kernel k goes to core 2k + 1 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

UNSET == -1
Fresh(K) == [core |-> [k \in K |-> UNSET], group |-> [k \in K |-> UNSET], log |-> <<>>]

Mod(st, m, k) ==
  [st EXCEPT !.core[k] = IF m.m = "core" THEN m.v ELSE @,
             !.group[k] = IF m.m = "group" THEN m.v ELSE @,
             !.log = Append(@, <<m, k>>)]
\* the first modifier on every kernel, then the second, ...
Bind(st, mods, ks) == FoldLeft(LAMBDA s, m : FoldLeft(LAMBDA t, k : Mod(t, m, k), s, ks), st, mods)

Load(core, c) == Cardinality({k \in DOMAIN core : core[k] = c})
Cores(n) == IF n = 0 THEN {0} ELSE 0..(n - 1)
Balanced(core, n) ==
  /\ \A k \in DOMAIN core : core[k] \in Cores(n)
  /\ \A a, b \in Cores(n) : Load(core, a) <= Load(core, b) + 1

\* may the placement be like this after an execution
Placed(st, part, n, core) ==
  CASE part \in {"default", "dummy"} -> core = st.core
    [] part = "basic" -> Balanced(core, n)
    [] part = "own"   -> core = [k \in DOMAIN st.core |-> 2 * k + 1]
=============================================================================
