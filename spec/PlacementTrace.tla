--------------------------- MODULE PlacementTrace ---------------------------
(***************************************************************************)
(* Judges recorded programs: results.json is a sequence of                 *)
(* [n, parent, items, calls, obs].  The graph is a tree: parent[k] feeds k *)
(* (0: k is a source of the numbers 1..items); a kernel passes on what it  *)
(* gets.  obs:                                                             *)
(*   steps  after each call but the execution: [core, group (UNSEEN: not   *)
(*          observable), log, got (kernels returned by bind)]              *)
(*   core   placement after the execution                                  *)
(*   seen   kernels the user's partitioner was given                       *)
(*   pins   <<thread, core>> in order; acts  <<thread, kernel, pins made   *)
(*          by that time>> first activation of each kernel                 *)
(*   out    what each kernel received                                      *)
(***************************************************************************)
EXTENDS Placement, TLC, Json

CONSTANT Step
Results == JsonDeserialize("results.json")
VARIABLES i

UNSEEN == -99

RECURSIVE States(_, _)
States(st, calls) ==
  IF calls = <<>> \/ calls[1].op = "exe" THEN <<>>
  ELSE LET c == calls[1]
           t == IF c.op = "bind" THEN Bind(st, c.mods, c.ks) ELSE [st EXCEPT !.core[c.k] = c.v]
       IN <<t>> \o States(t, Tail(calls))

Marks(log) == SelectSeq(log, LAMBDA x : x[1].m = "mark")

StepWrong(c, t, o) ==
     (IF o.core # [k \in DOMAIN t.core |-> t.core[k]] THEN {"hint"} ELSE {})
  \cup (IF \E k \in DOMAIN t.group : o.group[k] # UNSEEN /\ o.group[k] # t.group[k] THEN {"group"} ELSE {})
  \cup (IF [j \in 1..Len(o.log) |-> <<o.log[j][1], o.log[j][2]>>] # [j \in 1..Len(Marks(t.log)) |-> <<Marks(t.log)[j][1].v, Marks(t.log)[j][2]>>] THEN {"sequence"} ELSE {})
  \cup (IF c.op = "bind" /\ o.got # c.ks THEN {"returned"} ELSE {})

\* how often a value occurs in position p of a sequence of tuples
Count(q, p, v) == Cardinality({j \in 1..Len(q) : q[j][p] = v})

Complaints(R) ==
  LET K == 1..R.n
      S == States(Fresh(K), R.calls)
      st == IF S = <<>> THEN Fresh(K) ELSE S[Len(S)]
      x == R.calls[Len(R.calls)]
      o == R.obs
      first(k) == {j \in 1..Len(o.acts) : o.acts[j][2] = k}
      want == {o.core[k] : k \in K} \ {UNSET}
  IN UNION {StepWrong(R.calls[j], S[j], o.steps[j]) : j \in 1..Len(S)}
     \cup (IF ~Placed(st, x.part, x.cores, o.core) THEN {"placement"} ELSE {})
     \cup (IF x.part = "own" /\ (ToSet(o.seen) # K \/ Len(o.seen) # R.n) THEN {"partition"} ELSE {})
     \* every thread that has a hint obeys it once, before it runs the kernel
     \cup (IF \E c \in want \cup {o.pins[j][2] : j \in 1..Len(o.pins)} : Count(o.pins, 2, c) # Load(o.core, c) THEN {"pinned"} ELSE {})
     \cup (IF \E k \in K : \E j \in first(k) :
                LET p == {q \in 1..Len(o.pins) : o.pins[q][1] = o.acts[j][1]} IN
                \/ o.core[k] = UNSET /\ p # {}
                \/ o.core[k] # UNSET /\ ~ \E q \in p : p = {q} /\ o.pins[q][2] = o.core[k] /\ q <= o.acts[j][3]
           THEN {"pinned"} ELSE {})
     \cup (IF \E k \in K : R.parent[k] # 0 /\ o.out[k] # [j \in 1..R.items |-> j] THEN {"computes"} ELSE {})

Init == i \in 1..Step
Next == i + Step <= Len(Results) /\ i' = i + Step
Spec == Init /\ [][Next]_i
Judge ==
  IF i <= Len(Results)
  THEN LET c == Complaints(Results[i]) IN IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i) \o " " \o ToString(c))
  ELSE TRUE
=============================================================================
