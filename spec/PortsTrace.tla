----------------------------- MODULE PortsTrace -----------------------------
(***************************************************************************)
(* Judges the port tables of real kernels: results.json is a sequence of   *)
(* [len, universe, calls, obs].  obs.steps[j] is what was seen after call  *)
(* j: [r |-> "ok" or the exception, in, out], each side                    *)
(*   [order, again  names in the order of two enumerations                 *)
(*    count, has, types  <<name, type or exception>> for the universe      *)
(*    op     <<name, "ok" or exception>> of operator[] on names that do    *)
(*           not exist]                                                    *)
(* obs.links[j]: [side, name, ok |-> "ok" or exception, type, kernel,      *)
(*    name2 as the port reported them, at, n the part of existing memory,  *)
(*    id     the stream that was attached,                                 *)
(*    got    <<stream found by operator[](const&), (&&), iterator>>]       *)
(***************************************************************************)
EXTENDS Ports, Json

CONSTANT Step
Results == JsonDeserialize("results.json")
VARIABLES i

RECURSIVE States(_, _, _)
States(tab, len, calls) ==
  IF calls = <<>> THEN <<>>
  ELSE LET r == Apply(tab, len, calls[1]) IN <<r>> \o States(r.tab, len, Tail(calls))

SideWrong(t, u, o) ==
     (IF ToSet(o.order) # DOMAIN t \/ Len(o.order) # Cardinality(DOMAIN t) THEN {"enumeration"} ELSE {})
  \cup (IF o.again # o.order THEN {"order"} ELSE {})
  \cup (IF o.count # Cardinality(DOMAIN t) THEN {"count"} ELSE {})
  \cup (IF o.has # (DOMAIN t # {}) THEN {"has"} ELSE {})
  \cup (IF \E x \in ToSet(o.types) : x[2] # (IF x[1] \in DOMAIN t THEN t[x[1]].t ELSE "PortNotFoundException") THEN {"type"} ELSE {})
  \cup (IF \E x \in ToSet(o.op) : x[1] \notin DOMAIN t /\ x[2] # "PortNotFoundException" THEN {"lookup"} ELSE {})

\* an enumeration keeps its order as long as no port is declared
Same(a, b, t1, t2) == DOMAIN t1 = DOMAIN t2 => a.order = b.order

StepWrong(R, S, j) ==
  LET o == R.obs.steps[j]
      want == IF S[j].ok THEN "ok" ELSE "PortAlreadyExists"
  IN (IF o.r # want THEN {"result"} ELSE {})
     \cup UNION {SideWrong(S[j].tab[s], R.universe, o[s]) : s \in Sides}
     \cup (IF j > 1 /\ \E s \in Sides : ~Same(R.obs.steps[j - 1][s], o[s], S[j - 1].tab[s], S[j].tab[s]) THEN {"order"} ELSE {})

LinkWrong(R, tab, l) ==
  IF l.name \notin DOMAIN tab[l.side]
  THEN IF l.ok # "PortNotFoundException" THEN {"link"} ELSE {}
  ELSE LET p == tab[l.side][l.name] IN
       IF l.ok # "ok" THEN {"link"}
       ELSE (IF l.type # p.t \/ ~l.kernel \/ l.name2 # l.name THEN {"info"} ELSE {})
            \cup (IF \E j \in 1..Len(l.got) : l.got[j] # l.id THEN {"stream"} ELSE {})
            \cup (IF l.at # p.at \/ l.n # p.n THEN {"part"} ELSE {})

Complaints(R) ==
  LET S == States(NoPorts, R.len, R.calls)
      tab == IF S = <<>> THEN NoPorts ELSE S[Len(S)].tab
  IN (IF Len(R.obs.steps) # Len(R.calls) THEN {"steps"} ELSE UNION {StepWrong(R, S, j) : j \in 1..Len(R.calls)})
     \cup UNION {LinkWrong(R, tab, l) : l \in ToSet(R.obs.links)}

Init == i \in 1..Step
Next == i + Step <= Len(Results) /\ i' = i + Step
Spec == Init /\ [][Next]_i
Judge ==
  IF i <= Len(Results)
  THEN LET c == Complaints(Results[i]) IN IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i) \o " " \o ToString(c))
  ELSE TRUE
=============================================================================
