---------------------------- MODULE AdaptorsGen ----------------------------
(***************************************************************************)
(* All batches up to a size for K streams, and all orders in which the     *)
(* sink may take the elements. Element e of stream i is 100 * i + position *)
(***************************************************************************)
EXTENDS Adaptors, Json

CONSTANTS K, MaxBatches, MaxLen

VARIABLES batches, st, out
vars == <<batches, st, out>>

\* the lengths of the batches decide
Fill(ls) == [b \in DOMAIN ls |->
  [i \in 1..K |-> LET before == FoldSeq(LAMBDA x, a : x[i] + a, 0, SubSeq(ls, 1, b - 1))
                  IN [j \in 1..ls[b][i] |-> 100 * i + before + j]]]
Lens == [1..K -> 0..MaxLen]
Init == /\ batches \in {Fill(ls) : ls \in UNION {[1..n -> Lens] : n \in 0..MaxBatches}}
        /\ st = Start(K) /\ out = <<>>
Next == \/ MayFeed(st, batches) /\ st' = Feed(st, batches) /\ UNCHANGED <<batches, out>>
        \/ \E i \in 1..K : MayTake(st, i) /\ out' = Append(out, Taken(st, i)) /\ st' = Take(st, i) /\ UNCHANGED batches
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Of(i, s) == SelectSeq(s, LAMBDA e : e \div 100 = i)
Given(i, n) == FlattenSeq([b \in 1..n |-> batches[b][i]])
\* each stream comes out as it went in
InOrder == \A i \in 1..K : Of(i, out) \o st.q[i] = Given(i, st.b)
\* and batches do not mix
Batched == \A b \in 1..st.b : LET n == FoldSeq(LAMBDA x, a : a + Len(x), 0, FlattenSeq([c \in 1..b |-> [i \in 1..K |-> batches[c][i]]]))
             IN Len(out) >= n => ToSet(SubSeq(out, 1, n)) = UNION {ToSet(Given(i, b)) : i \in 1..K}
Complete == <>Over(st, batches)
Emit == ~(st.b = 0) \/ PrintT("X " \o ToJson(batches))
=============================================================================
