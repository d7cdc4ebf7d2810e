--------------------------- MODULE TraverseTrace ---------------------------
(***************************************************************************)
(* Judges the breadth first searches of the real library: results.json as  *)
(* for TopologyTrace; obs.trav is a sequence of [how, start, cb, refused], *)
(* cb the arguments of the callback as <<u, p, v, q>> or u.                *)
(***************************************************************************)
EXTENDS TopologyTrace, Search

Wrong(R, t) ==
  LET g == Meaning(R).g
      E == {<<e.src[1], e.sp, e.dst[1], e.dp>> : e \in g.edges}
      \* also of the kernels that were never connected to anything
      I == g.inst \cup {<<k, 0>> : k \in 1..Len(R.ks)}
      U == UNION {{<<x[1], p>> : p \in {p \in Names(R.ks[x[1]].outs) : ~UsedOut(g, x, p)}} : x \in I}
      X == ToSet(t.start)
      ok == CASE t.how \in {"set", "vec"}       -> ~t.refused /\ EdgeCalls(E, X, t.cb)
              [] t.how = "vertex"               -> ~t.refused /\ VertexCalls(E, X, t.cb)
              [] t.how \in {"strict", "strictvec"} -> StrictCalls(E, U, X, t.cb, t.refused)
  IN IF ok THEN {} ELSE {"search-" \o t.how}

TComplaints(R) == UNION {Wrong(R, R.obs.trav[j]) : j \in 1..Len(R.obs.trav)}
TJudge ==
  IF i <= Len(Results)
  THEN LET c == TComplaints(Results[i]) \cup Complaints(Results[i])
       IN IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i) \o " " \o ToString(c))
  ELSE TRUE
=============================================================================
