---------------------------- MODULE TopologyGen ----------------------------
(***************************************************************************)
(* Enumerates graph expressions over a fixed set of kernels, checks that   *)
(* the meaning of each is sound, and emits them for the real library.      *)
(***************************************************************************)
EXTENDS Topology, TLC, Json

CONSTANTS MaxOps, Which, Named

\* name and element type of the ports
P(x, t) == <<x, t>>
All ==
  <<[ins |-> <<>>, outs |-> <<P("a", "i")>>, clone |-> TRUE],                                   \* 1 source
    [ins |-> <<>>, outs |-> <<P("a", "i"), P("b", "i")>>, clone |-> FALSE],                     \* 2 source, two ports
    [ins |-> <<P("0", "i")>>, outs |-> <<P("0", "i")>>, clone |-> TRUE],                        \* 3
    [ins |-> <<P("x", "i")>>, outs |-> <<P("y", "l")>>, clone |-> TRUE],                        \* 4 changes the type
    [ins |-> <<P("x", "i")>>, outs |-> <<P("p", "i"), P("q", "i")>>, clone |-> TRUE],           \* 5 one to two
    [ins |-> <<P("x", "i"), P("y", "i")>>, outs |-> <<P("s", "i")>>, clone |-> TRUE],           \* 6 two to one
    [ins |-> <<P("x", "i")>>, outs |-> <<>>, clone |-> TRUE],                                   \* 7 sink
    [ins |-> <<P("x", "i"), P("y", "i")>>, outs |-> <<>>, clone |-> FALSE],                     \* 8 sink, two ports
    [ins |-> <<>>, outs |-> <<P("a", "i"), P("b", "i"), P("c", "i")>>, clone |-> TRUE],         \* 9 source, three ports
    [ins |-> <<P("m", "i"), P("n", "i"), P("o", "i")>>, outs |-> <<P("s", "i")>>, clone |-> TRUE], \* 10 three to one
    [ins |-> <<P("0", "i")>>, outs |-> <<P("0", "i")>>, clone |-> TRUE],                        \* 11 as 3
    [ins |-> <<P("l", "l")>>, outs |-> <<>>, clone |-> TRUE],                                   \* 12 sink of the other type
    [ins |-> <<P("x", "i"), P("y", "i")>>, outs |-> <<P("s", "i")>>, clone |-> TRUE]>>          \* 13 as 6

VARIABLES items, ops

\* the port names worth giving; "zz" does not exist
InNames(k)  == {""} \cup (IF Named THEN (IF Len(All[k].ins) > 1 THEN Names(All[k].ins) ELSE {}) \cup {"zz"} ELSE {})
OutNames(k) == {""} \cup (IF Named THEN (IF Len(All[k].outs) > 1 THEN Names(All[k].outs) ELSE {}) \cup {"zz"} ELSE {})
Item(k, x, y) == [k |-> k, in |-> x, out |-> y, many |-> FALSE]

Rs == Expr(All, Empty(All), items, ops)

Init == \E k \in Which : \E y \in OutNames(k) : items = <<Item(k, "", y)>> /\ ops = <<>>
Fits(a, o, b) ==
  \* a name is given only where it is used
  /\ (o = "<=" => a.out = "")
  /\ (o = ">=" => b.in = "")
  \* between two of <= and >= it depends on the grouping which port a name is for
  /\ (o \in {"<=", ">="} /\ Len(ops) > 0 /\ ops[Len(ops)] \in {"<=", ">="} => a.out = "")
  /\ (Len(ops) > 0 /\ ops[Len(ops)] \in {"<=", ">="} => a.in = "")
  \* an output name after an input name needs the input name
  /\ (b.out # "" /\ o \in {">>", ">o"} => b.in # "")
  \* right of <= and >= a single name is an output
  /\ (o = "<=" => b.in = "" \/ b.out = "")
  /\ \A j \in 1..Len(items) : items[j].k # b.k
Next ==
  /\ Len(ops) < MaxOps
  /\ Rs.g.faults = {}
  /\ \E o \in {">>", ">o", "<=", ">="} : \E k \in Which : \E x \in InNames(k), y \in OutNames(k) :
       /\ Fits(items[Len(items)], o, Item(k, x, y))
       /\ Defined(Append(ops, o))
       /\ items' = Append(items, Item(k, x, y))
       /\ ops' = Append(ops, o)
       \* the last item: an unused output name is not given
Spec == Init /\ [][Next]_<<items, ops>>

Good == Len(ops) = 0 \/ (Sound(All, Rs) /\ Closed(All, Empty(All), Rs))
Emit == Len(ops) = 0 \/ items[Len(items)].out # "" \/ PrintT("X " \o ToJson([items |-> items, ops |-> ops]))
=============================================================================
