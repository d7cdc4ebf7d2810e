---------------------------- MODULE ForEachTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions: results.json is a sequence of               *)
(* [len, n, how, plan, obs].  how "link": worker w has port w and its      *)
(* plan, elements left over when it is done are taken with "pop"; "many":  *)
(* the workers are clones, every element is looked at and written.         *)
(* obs: [saw: per worker <<index or -1, value>>, mem, outside: the memory  *)
(* around the array is as it was]                                          *)
(***************************************************************************)
EXTENDS ForEach, Json

CONSTANT Step
Results == JsonDeserialize("results.json")
VARIABLES i

\* worker w performs ops and takes what is left over (at most len pops)
Rest(r, len, n, w, ops) ==
  FoldLeft(LAMBDA q, o : LET x == Do(q.st, len, n, w, o) IN [st |-> x.st, saw |-> [q.saw EXCEPT ![w] = @ \o x.saw]],
           r, ops \o [j \in 1..Part(len, n, w).n |-> [op |-> "pop", k |-> 1]])

Final(R) == FoldLeft(LAMBDA r, w : Rest(r, R.len, R.n, w, R.plan[w]),
                     [st |-> Start(R.len, R.n), saw |-> [w \in 1..R.n |-> <<>>]], [w \in 1..R.n |-> w])

MemOf(m, len) == [j \in 1..len |-> m[j - 1]]

Complaints(R) ==
  LET o == R.obs IN
  IF R.how = "many"
  THEN LET all == FlattenSeq(o.saw)
           idx == ToSet(all)
       IN (IF {x[2] : x \in idx} # {Value0(j) : j \in 0..(R.len - 1)} \/ Len(all) # R.len THEN {"presented"} ELSE {})
          \cup (IF \E x \in idx : x[1] # -1 /\ x[2] # Value0(x[1]) THEN {"index"} ELSE {})
          \cup (IF o.mem # [j \in 1..R.len |-> Written(Value0(j - 1))] THEN {"memory"} ELSE {})
          \cup (IF ~o.outside THEN {"outside"} ELSE {})
  ELSE LET f == Final(R) IN
       (IF [w \in 1..R.n |-> [j \in 1..Len(o.saw[w]) |-> o.saw[w][j][2]]] # [w \in 1..R.n |-> [j \in 1..Len(f.saw[w]) |-> f.saw[w][j][2]]] THEN {"presented"}
        ELSE IF o.saw # f.saw THEN {"index"} ELSE {})
       \cup (IF o.mem # MemOf(f.st.mem, R.len) THEN {"memory"} ELSE {})
       \cup (IF ~o.outside THEN {"outside"} ELSE {})

Init == i \in 1..Step
Next == i + Step <= Len(Results) /\ i' = i + Step
Spec == Init /\ [][Next]_i
Judge ==
  IF i <= Len(Results)
  THEN LET c == Complaints(Results[i]) IN IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i) \o " " \o ToString(c))
  ELSE TRUE
=============================================================================
