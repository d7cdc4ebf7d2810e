------------------------------- MODULE Ports -------------------------------
(***************************************************************************)
(* The port tables of a kernel (C22).                                      *)
(*                                                                         *)
(* A kernel has an input and an output table; a table is a function from   *)
(* the declared names to [t |-> element type, at |-> first element, n |->  *)
(* number of elements], the last two of a port made on existing memory     *)
(* (C18) and 0 otherwise.  Calls are                                       *)
(*   [op |-> "add", side, type, names]   addPort<type>(names...)           *)
(*   [op |-> "inplace", side, type, n]   addInPlacePorts<type>(n) on       *)
(*                                       existing memory that holds         *)
(*                                       len[type] elements                *)
(* A call declares its names from left to right and is refused at the      *)
(* first one that exists already.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Functions, TLC

Sides == {"in", "out"}
NoPorts == [s \in Sides |-> <<>>]   \* the function with no names

Port(t, at, n) == [t |-> t, at |-> at, n |-> n]

\* r: [tab, ok]
Declare(r, s, name, p) ==
  IF ~r.ok THEN r
  ELSE IF name \in DOMAIN r.tab[s] THEN [r EXCEPT !.ok = FALSE]
  ELSE [r EXCEPT !.tab[s] = (name :> p) @@ @]

RECURSIVE DeclareAll(_, _, _, _)
DeclareAll(r, s, names, ps) ==
  IF names = <<>> THEN r ELSE DeclareAll(Declare(r, s, names[1], ps[1]), s, Tail(names), Tail(ps))

\* n equal parts of len elements, the remainder goes to the last
Part(len, n, j) == [at |-> (j - 1) * (len \div n), n |-> (len \div n) + (IF j = n THEN len % n ELSE 0)]

Apply(tab, len, c) ==
  IF c.op = "add"
  THEN DeclareAll([tab |-> tab, ok |-> TRUE], c.side, c.names, [j \in 1..Len(c.names) |-> Port(c.type, 0, 0)])
  ELSE DeclareAll([tab |-> tab, ok |-> TRUE], c.side, [j \in 1..c.n |-> ToString(j - 1)],
                  [j \in 1..c.n |-> LET p == Part(len[c.type], c.n, j) IN Port(c.type, p.at, p.n)])

\* no two parts share an element, and together they are the array
Exact(tab, s) ==
  LET P == {x \in DOMAIN tab[s] : tab[s][x].n > 0}
  IN \A x, y \in P : x # y => tab[s][x].at + tab[s][x].n <= tab[s][y].at \/ tab[s][y].at + tab[s][y].n <= tab[s][x].at
=============================================================================
