------------------------------ MODULE PortsGen ------------------------------
(***************************************************************************)
(* All sequences of Depth declarations over a small set of names and types *)
(***************************************************************************)
EXTENDS Ports, Json

CONSTANTS Names, Types, MaxIn, Batch, Depth, Bytes

Len0 == [i |-> Bytes \div 4, d |-> Bytes \div 8, c |-> Bytes]

VARIABLES tab, calls
vars == <<tab, calls>>

Seqs == UNION {[1..k -> Names] : k \in 0..Batch}
Calls == [op : {"add"}, side : Sides, type : Types, names : Seqs] \cup [op : {"inplace"}, side : Sides, type : Types, n : 0..MaxIn]

Init == tab = NoPorts /\ calls = <<>>
Next == /\ Len(calls) < Depth
        /\ \E c \in Calls : LET r == Apply(tab, Len0, c) IN tab' = r.tab /\ calls' = Append(calls, c)
Spec == Init /\ [][Next]_vars

\* nothing that was declared ever changes or goes away
Stable == [][\A s \in Sides : \A x \in DOMAIN tab[s] : x \in DOMAIN tab'[s] /\ tab'[s][x] = tab[s][x]]_vars
\* one batch of ports on existing memory divides it exactly
Divided == \A s \in Sides : (Cardinality({j \in 1..Len(calls) : calls[j].op = "inplace" /\ calls[j].side = s /\ calls[j].n > 0}) <= 1)
              => Exact(tab, s)
Emit == Len(calls) < Depth \/ PrintT("X " \o ToJson(calls))
=============================================================================
