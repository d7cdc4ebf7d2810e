------------------------------ MODULE Topology ------------------------------
(***************************************************************************)
(* What graph expressions mean, and which graphs are refused.              *)
(*                                                                         *)
(* ks  sequence of kernels [ins, outs, clone]: ins and outs are sequences  *)
(*     of <<name, type>> in port order, clone: it can be cloned            *)
(*                                                                         *)
(* An expression is a sequence of items [k, in, out] (kernel number and    *)
(* the port names given with it, "" for none) joined by operators          *)
(*   ">>"  every kernel so far feeds a copy of the next one                *)
(*   ">o"  the same, and the stream may be reordered                       *)
(*   "<="  every output port of every kernel so far feeds its own copy     *)
(*   ">="  the copies made by the matching <= feed the input ports of one  *)
(*         kernel; with no <= open the chain so far is repeated once for   *)
(*         each input port                                                 *)
(* Parentheses only group: they do not change the meaning.                 *)
(*                                                                         *)
(* A kernel instance is <<k, c>>: c = 0 is the kernel named in the         *)
(* expression, c > 0 its c-th clone.  A graph g is a record                *)
(*   edges   set of [src, sp, dst, dp, ooo, cap]                           *)
(*   inst    instances that are part of the graph                          *)
(*   n       n[k]: clones of k made so far                                 *)
(*   faults  why the last statement has to be refused ({}: it has not)     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Empty(ks) == [edges |-> {}, inst |-> {}, n |-> [k \in 1..Len(ks) |-> 0], faults |-> {}]

Names(ps)   == {ps[i][1] : i \in 1..Len(ps)}
TypeOf(ps, x) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]

\* the port meant by a name, and what is wrong with it
PortOf(ps, x) == IF x # "" THEN x ELSE IF Len(ps) = 1 THEN ps[1][1] ELSE ""
PortFault(ps, x) ==
  IF x # "" THEN (IF x \in Names(ps) THEN {} ELSE {"PortNotFound"})
  ELSE CASE Len(ps) = 1 -> {} [] Len(ps) = 0 -> {"PortNotFound"} [] OTHER -> {"Ambiguous"}

UsedOut(g, x, p) == \E e \in g.edges : e.src = x /\ e.sp = p
UsedIn(g, y, q)  == \E e \in g.edges : e.dst = y /\ e.dp = q

\* one stream, from port p of instance x to port q of instance y
Link(ks, g, x, p, y, q, ooo, cap) ==
  LET os == ks[x[1]].outs   is == ks[y[1]].ins
      pf == PortFault(os, p)   qf == PortFault(is, q)
      P == PortOf(os, p)       Q == PortOf(is, q)
      ok == pf = {} /\ qf = {}
      tf == IF ok /\ TypeOf(os, P) # TypeOf(is, Q) THEN {"Type"} ELSE {}
      df == IF ok /\ (UsedOut(g, x, P) \/ UsedIn(g, y, Q)) THEN {"Double"} ELSE {}
  IN [g EXCEPT !.inst = @ \cup {x, y},
               !.faults = @ \cup pf \cup qf \cup tf \cup df,
               !.edges = IF ok THEN @ \cup {[src |-> x, sp |-> P, dst |-> y, dp |-> Q, ooo |-> ooo, cap |-> cap]} ELSE @]

\* the instance standing for the next mention of kernel k
Instance(ks, g, k, first) == IF first THEN <<k, 0>> ELSE <<k, g.n[k] + 1>>
Made(ks, g, k, first) ==
  IF first THEN g
  ELSE [g EXCEPT !.n[k] = @ + 1, !.faults = @ \cup (IF ks[k].clone THEN {} ELSE {"Clone"})]

-----------------------------------------------------------------------------
(* The state of expanding an expression: the graph, the groups of          *)
(* instances the next operator applies to, the new groups, and the fan-out *)
(* of every split still open (innermost first)                             *)

NoneYet(s) == \A i \in 1..Len(s.ng) : s.ng[i] = <<>>
AddTo(s, y) == [s EXCEPT !.ng[Len(s.ng)] = Append(@, y)]
Open(s) == [s EXCEPT !.ng = Append(@, <<>>)]

ContOne(ks, a, b, ooo, s, x) ==
  LET first == NoneYet(s)
      g == Made(ks, s.g, b.k, first)
      y == Instance(ks, s.g, b.k, first)
  IN AddTo([s EXCEPT !.g = Link(ks, g, x, a.out, y, b.in, ooo, 0)], y)
Cont(ks, a, b, ooo, s) ==
  LET grp(t, gr) == FoldLeft(LAMBDA u, x : ContOne(ks, a, b, ooo, u, x), Open(t), gr)
  IN FoldLeft(grp, s, s.groups)

SplitOne(ks, a, b, s, x) ==
  LET port(t, p) ==
        LET first == NoneYet(t)
            g == Made(ks, t.g, b.k, first)
            y == Instance(ks, t.g, b.k, first)
        IN AddTo([t EXCEPT !.g = Link(ks, g, x, p[1], y, b.in, FALSE, 0)], y)
  IN FoldLeft(port, Open(s), ks[x[1]].outs)
Split(ks, a, b, s) ==
  LET fan == Len(ks[a.k].outs)
      grp(t, gr) == FoldLeft(LAMBDA u, x : SplitOne(ks, a, b, u, x), t, gr)
      s1 == [s EXCEPT !.open = <<fan>> \o @, !.g.faults = @ \cup (IF fan = 0 THEN {"Topology"} ELSE {})]
  IN FoldLeft(grp, s1, s.groups)

\* sequence xs cut into pieces of n
Pieces(xs, n) ==
  IF n = 0 THEN <<xs>>
  ELSE [i \in 1..((Len(xs) + n - 1) \div n) |-> SubSeq(xs, (i - 1) * n + 1, IF i * n < Len(xs) THEN i * n ELSE Len(xs))]

JoinGroup(ks, a, b, s, gr) ==
  LET first == NoneYet(s)
      is == ks[b.k].ins
      y == Instance(ks, s.g, b.k, first)
      g == Made(ks, s.g, b.k, first)
      g1 == [g EXCEPT !.faults = @ \cup (IF Len(is) # Len(gr) THEN {"Topology"} ELSE {})]
      n == IF Len(is) < Len(gr) THEN Len(is) ELSE Len(gr)
      one(h, i) == Link(ks, h, gr[i], a.out, y, is[i][1], FALSE, 0)
  IN AddTo([s EXCEPT !.g = FoldLeft(one, g1, [i \in 1..n |-> i])], y)
\* the joined instances are again grouped by the split around this one
Join(ks, a, b, s) ==
  LET t == FoldLeft(LAMBDA u, gr : JoinGroup(ks, a, b, u, gr), [s EXCEPT !.ng = <<<<>>>>], s.groups)
      rest == Tail(s.open)
  IN [t EXCEPT !.open = rest, !.ng = Pieces(t.ng[1], IF rest = <<>> THEN 0 ELSE rest[1])]

\* no split is open: items[1..i] is a chain and is repeated
Chain(ks, items, ops, i, s) ==
  LET new(h, j) == [g |-> Link(ks, Made(ks, h.g, items[j].k, FALSE), h.at, items[j - 1].out,
                               Instance(ks, h.g, items[j].k, FALSE), items[j].in, ops[j - 1] = ">o", 0),
                    at |-> Instance(ks, h.g, items[j].k, FALSE), head |-> h.head]
      x == Instance(ks, s.g, items[1].k, FALSE)
  IN FoldLeft(new, [g |-> Made(ks, s.g, items[1].k, FALSE), at |-> x, head |-> x], [j \in 1..(i - 1) |-> j + 1])
Repeat(ks, items, ops, i, s) ==
  LET b == items[i + 1]
      is == ks[b.k].ins
      y == <<b.k, 0>>
      g0 == [s.g EXCEPT !.faults = @ \cup (IF Len(is) = 0 THEN {"Topology"} ELSE {})]
      port(t, j) ==
        IF j = 1 THEN [t EXCEPT !.g = Link(ks, @, s.groups[1][1], items[i].out, y, is[1][1], FALSE, 0)]
        ELSE LET c == Chain(ks, items, ops, i, t)
             IN [t EXCEPT !.g = Link(ks, c.g, c.at, items[i].out, y, is[j][1], FALSE, 0), !.srcs = Append(@, c.head)]
  IN [FoldLeft(port, [s EXCEPT !.g = g0], [j \in 1..Len(is) |-> j]) EXCEPT !.ng = <<<<y>>>>]

Op(ks, items, ops, s, i) ==
  LET a == items[i]  b == items[i + 1]  o == ops[i]
      t == CASE o \in {">>", ">o"} -> Cont(ks, a, b, o = ">o", s)
             [] o = "<="           -> Split(ks, a, b, s)
             [] o = ">=" /\ s.open # <<>> -> Join(ks, a, b, s)
             [] OTHER              -> Repeat(ks, items, ops, i, s)
  IN [t EXCEPT !.groups = t.ng, !.ng = <<>>]

\* an expression added to graph g: the new graph, and the kernels returned
Expr(ks, g, items, ops) ==
  LET h == <<items[1].k, 0>>
      s == FoldLeft(LAMBDA t, i : Op(ks, items, ops, t, i),
                    [g |-> g, groups |-> <<<<h>>>>, ng |-> <<>>, open |-> <<>>, srcs |-> <<h>>],
                    [i \in 1..Len(ops) |-> i])
  IN [g |-> s.g, src |-> s.srcs, dst |-> FlattenSeq(s.groups)]

\* a repeated chain is only defined for a chain
Defined(ops) ==
  \A i \in 1..Len(ops) :
    ops[i] = ">=" /\ Cardinality({j \in 1..i : ops[j] = ">="}) > Cardinality({j \in 1..i : ops[j] = "<="})
      => \A j \in 1..(i - 1) : ops[j] \in {">>", ">o"}

-----------------------------------------------------------------------------
(* execution                                                                *)

Unconnected(ks, g) ==
  \E x \in g.inst : \/ \E p \in Names(ks[x[1]].outs) : ~UsedOut(g, x, p)
                    \/ \E q \in Names(ks[x[1]].ins)  : ~UsedIn(g, x, q)

-----------------------------------------------------------------------------
(* what must be so of every expression that is not refused                 *)

Sound(ks, r) ==
  r.g.faults = {} =>
    /\ \A e \in r.g.edges : TypeOf(ks[e.src[1]].outs, e.sp) = TypeOf(ks[e.dst[1]].ins, e.dp)
    /\ \A e, f \in r.g.edges : (e.src = f.src /\ e.sp = f.sp) \/ (e.dst = f.dst /\ e.dp = f.dp) => e = f
    /\ \A x \in r.g.inst : x[2] <= r.g.n[x[1]]
    /\ \A e \in r.g.edges : {e.src, e.dst} \subseteq r.g.inst
    /\ ToSet(r.src) \cup ToSet(r.dst) \subseteq r.g.inst
    /\ Len(r.src) = Cardinality(ToSet(r.src)) /\ Len(r.dst) = Cardinality(ToSet(r.dst))
\* nothing inside a new expression is left open: only the kernels returned
\* have unconnected ports, of the right direction
Closed(ks, g0, r) ==
  (r.g.faults = {} /\ g0.edges = {}) =>
    \A x \in r.g.inst :
      /\ (\E q \in Names(ks[x[1]].ins)  : ~UsedIn(r.g, x, q))  => x \in ToSet(r.src) \/ Len(ks[x[1]].ins) > 1
      /\ (\E p \in Names(ks[x[1]].outs) : ~UsedOut(r.g, x, p)) => x \in ToSet(r.dst) \/ Len(ks[x[1]].outs) > 1
=============================================================================
