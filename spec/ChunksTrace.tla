---------------------------- MODULE ChunksTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions: results.json is a sequence of               *)
(* [file, len, pay, ov, ports, term, obs]; of large files only len is       *)
(* known. Without a term, obs is the chunks                                *)
(* each port got: [start, len, index, eof, text, at], at being the         *)
(* locations its iterators tell, or <<>>; with a term, it is the matches   *)
(* <<start, end>> each port got.                                           *)
(***************************************************************************)
EXTENDS Chunks, Json

CONSTANT Step
Results == JsonDeserialize("results.json")
VARIABLES i

Chunk(x) == [start |-> x.start, len |-> x.len, index |-> x.index]
Read(R) ==
  LET L == R.len
      n == Count(L, R.pay, R.ov)
      all == FlattenSeq(R.obs)
      seen == {x.index : x \in ToSet(all)}
  IN (IF Len(all) < n \/ (seen # 0..(n - 1) /\ Cardinality(seen) < n) THEN {"missed"} ELSE {})
     \cup (IF Len(all) > n THEN {"repeated"} ELSE {})
     \cup (IF \E x \in ToSet(all) : x.index \notin 0..(n - 1) \/ Chunk(x) # Nth(L, R.pay, R.ov, x.index) THEN {"offset-length-index"}
           ELSE IF R.len = Len(R.file) /\ \E x \in ToSet(all) : x.text # Text(R.file, x) THEN {"content"} ELSE {})
     \cup (IF \E x \in ToSet(all) : x.at # <<>> /\ x.at # [j \in 1..x.len |-> x.start + j - 1] THEN {"location"} ELSE {})
     \cup (IF \E p \in DOMAIN R.obs : \E j \in 1..(Len(R.obs[p]) - 1) : R.obs[p][j].index >= R.obs[p][j + 1].index THEN {"order"} ELSE {})
     \cup (IF \E x \in ToSet(all) : x.index = n - 1 /\ ~x.eof THEN {"end"} ELSE {})

\* each chunk that contains an occurrence reports it
RECURSIVE Matches(_, _, _)
Matches(R, k, n) ==    \* how many for each place
  IF k = n THEN <<>>
  ELSE LET f == Found(R.file, R.term, Nth(R.len, R.pay, R.ov, k))
           m == Matches(R, k + 1, n)
       IN [p \in DOMAIN m \cup f |-> (IF p \in DOMAIN m THEN m[p] ELSE 0) + (IF p \in f THEN 1 ELSE 0)]
Times(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
Search(R) ==
  LET n == Count(R.len, R.pay, R.ov)
      m == Matches(R, 0, n)
      all == FlattenSeq(R.obs)
      at == [j \in DOMAIN all |-> all[j][1]]
  IN (IF \E p \in DOMAIN m : Times(at, p) = 0 THEN {"missed"} ELSE {})
     \cup (IF \E j \in DOMAIN at : at[j] \notin DOMAIN m \/ all[j][2] # at[j] + Len(R.term) THEN {"offset"}
           ELSE IF \E p \in DOMAIN m : Times(at, p) > m[p] THEN {"repeated"} 
           ELSE IF \E p \in DOMAIN m : Times(at, p) < m[p] THEN {"missed"} ELSE {})

Complaints(R) == IF R.term = "" THEN Read(R) ELSE Search(R)

Init == i \in 1..Step
Next == i + Step <= Len(Results) /\ i' = i + Step
Spec == Init /\ [][Next]_i
Judge ==
  IF i <= Len(Results)
  THEN LET c == Complaints(Results[i]) IN IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i) \o " " \o ToString(c))
  ELSE TRUE
=============================================================================
