------------------------------ MODULE ForEach ------------------------------
(***************************************************************************)
(* An array handed to n workers that process it in place (C18).            *)
(*                                                                         *)
(* Element j (0, 1, ...) of the array holds the value Value0(j).  Worker w *)
(* is given part w and goes through it with operations [op, k] on its      *)
(* next k elements:                                                        *)
(*   "pop" "popr" "pops"  take one, take k, take one by reference: the     *)
(*                        worker sees the values, the array stays          *)
(*   "peek" "peekr"       look at one, at k, write to each, recycle        *)
(*   "look"               look at k without consuming them                 *)
(*   "skip"               recycle k unseen                                 *)
(* peekr and look also tell the index of the first element.                *)
(* k is cut down to what is left.  state: [mem, cur]                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Value0(j) == 10 + j
Written(v) == v + 1000

\* part w of an array of len elements divided over n workers
Part(len, n, w) == [at |-> (w - 1) * (len \div n), n |-> (len \div n) + (IF w = n THEN len % n ELSE 0)]

Array(len) == [j \in 0..(len - 1) |-> Value0(j)]
Start(len, n) == [mem |-> Array(len), cur |-> [w \in 1..n |-> 0]]
Left(st, len, n, w) == Part(len, n, w).n - st.cur[w]

\* [st, saw]: saw is the sequence of <<index or -1, value>> shown to the worker
Do(st, len, n, w, o) ==
  LET left == Left(st, len, n, w)
      want == IF o.op \in {"pop", "pops", "peek"} THEN 1 ELSE o.k
      k == IF want < left THEN want ELSE left
      first == Part(len, n, w).at + st.cur[w]
      range == first..(first + k - 1)
  IN [st |-> [mem |-> IF o.op \in {"peek", "peekr"} THEN [j \in DOMAIN st.mem |-> IF j \in range THEN Written(st.mem[j]) ELSE st.mem[j]] ELSE st.mem,
              cur |-> [st.cur EXCEPT ![w] = IF o.op = "look" THEN @ ELSE @ + k]],
      saw |-> IF o.op = "skip" THEN <<>>
              ELSE [j \in 1..k |-> <<IF o.op \in {"peekr", "look"} THEN first + j - 1 ELSE -1, st.mem[first + j - 1]>>]]
=============================================================================
