----------------------------- MODULE Ownership -----------------------------
(***************************************************************************)
(* Who owns the kernels made through the factory (C19).                    *)
(*                                                                         *)
(* slot[s]  what wrapper variable s is: NONE (no such object), EMPTY (its  *)
(*          kernel was passed on), or the kernel it owns                   *)
(* map      "up" or "down" (destroyed); owned[k]: the map owns kernel k    *)
(* alive    kernels that exist now                                         *)
(* calls    <<operation, expected alive>> so far                           *)
(*                                                                         *)
(* Kernel 0 belongs to the caller and is never destroyed by the library.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, Kernels, Depth

NONE == -1
EMPTY == 0
VARIABLES slot, map, owned, alive, made, calls
vars == <<slot, map, owned, alive, made, calls>>

S == 1..Slots
Holds(s) == slot[s] > 0
Exists(s) == slot[s] # NONE

Init == /\ slot = [s \in S |-> NONE]
        /\ map = "up" /\ owned = {} /\ alive = {} /\ made = 0 /\ calls = <<>>

Do(op, a, b) == calls' = Append(calls, [op |-> op, a |-> a, b |-> b, alive |-> alive'])

\* a wrapper variable is only introduced after the ones before it
Fresh(s) == slot[s] = NONE /\ \A t \in S : t < s => Exists(t)

Make(s) == /\ Fresh(s) /\ made < Kernels
           /\ made' = made + 1 /\ slot' = [slot EXCEPT ![s] = made + 1]
           /\ alive' = alive \cup {made + 1} /\ UNCHANGED <<map, owned>> /\ Do("make", s, 0)
\* the copy takes the kernel over
Copy(s, t) == /\ Exists(s) /\ Fresh(t)
              /\ slot' = [slot EXCEPT ![t] = slot[s], ![s] = EMPTY]
              /\ UNCHANGED <<map, owned, alive, made>> /\ Do("copy", s, t)
\* and so does the wrapper assigned to, what it held is destroyed
Assign(s, t) == /\ Exists(s) /\ Exists(t)
                /\ IF s = t THEN UNCHANGED <<slot, alive>>
                   ELSE /\ slot' = [slot EXCEPT ![t] = slot[s], ![s] = EMPTY]
                        /\ alive' = alive \ {slot[t]}
                /\ UNCHANGED <<map, owned, made>> /\ Do("assign", s, t)
Drop(s) == /\ Exists(s)
           /\ slot' = [slot EXCEPT ![s] = NONE] /\ alive' = alive \ {slot[s]}
           /\ UNCHANGED <<map, owned, made>> /\ Do("drop", s, 0)
\* map += move(s) >> move(t)
Use(s, t) == /\ map = "up" /\ s # t /\ Holds(s) /\ Holds(t)
             /\ owned' = owned \cup {slot[s], slot[t]} /\ slot' = [slot EXCEPT ![s] = EMPTY, ![t] = EMPTY]
             /\ UNCHANGED <<map, alive, made>> /\ Do("use", s, t)
\* map += the caller's kernel >> move(s)
UseCaller(s) == /\ map = "up" /\ Holds(s)
                /\ owned' = owned \cup {slot[s]} /\ slot' = [slot EXCEPT ![s] = EMPTY]
                /\ UNCHANGED <<map, alive, made>> /\ Do("caller", s, 0)
\* an expression that is refused: the port does not exist
UseBadly(s) == /\ map = "up" /\ Holds(s)
               /\ owned' = owned \cup {slot[s]} /\ slot' = [slot EXCEPT ![s] = EMPTY]
               /\ UNCHANGED <<map, alive, made>> /\ Do("bad", s, 0)
\* kernels already in the map, mentioned again: a >> b >> ...
Again == /\ map = "up" /\ Cardinality(owned) >= 1
         /\ UNCHANGED <<slot, map, owned, alive, made>> /\ Do("again", CHOOSE k \in owned : \A j \in owned : k <= j, 0)
Unmap == /\ map = "up" /\ map' = "down" /\ alive' = alive \ owned /\ owned' = {}
         /\ UNCHANGED <<slot, made>> /\ Do("unmap", 0, 0)

Next == /\ Len(calls) < Depth
        /\ \E s, t \in S : Make(s) \/ Copy(s, t) \/ Assign(s, t) \/ Drop(s) \/ Use(s, t) \/ UseCaller(s) \/ UseBadly(s) \/ Again \/ Unmap
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every living kernel has exactly one owner, and everything owned is alive
Owners(k) == Cardinality({s \in S : slot[s] = k}) + (IF k \in owned THEN 1 ELSE 0)
OneOwner == \A k \in 1..made : (k \in alive => Owners(k) = 1) /\ (k \notin alive => Owners(k) = 0)
\* a kernel of the map lives as long as the map
KeptByMap == [][owned \subseteq alive /\ (map' = "up" => owned \subseteq alive')]_vars
Emit == Len(calls) < Depth \/ PrintT("X " \o ToJson(calls))
=============================================================================
