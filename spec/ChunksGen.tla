----------------------------- MODULE ChunksGen -----------------------------
(***************************************************************************)
(* Every small file read in chunks of every small size with every overlap, *)
(* and searched for every small term.                                      *)
(***************************************************************************)
EXTENDS Chunks, Json

CONSTANTS Letters, MaxLen, MaxPay, MaxTerm

VARIABLES file, pay, ov, c, chunks, done
vars == <<file, pay, ov, c, chunks, done>>

Strings(n) == UNION {[1..k -> Letters] : k \in 0..n}
Init == /\ file \in Strings(MaxLen) /\ pay \in 1..MaxPay /\ ov \in 0..(MaxPay - 1) /\ ov < pay
        /\ c = First(Len(file), pay) /\ chunks = <<>> /\ done = FALSE
Next == /\ ~done
        /\ chunks' = Append(chunks, c)
        /\ done' = IsLast(c, Len(file))
        /\ c' = IF done' THEN c ELSE After(c, Len(file), pay, ov)
        /\ UNCHANGED <<file, pay, ov>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

L == Len(file)
Ends == <>done
\* nothing is missed, nothing beyond the file is read
Covers == done => UNION {(chunks[i].start)..(EndOf(chunks[i]) - 1) : i \in DOMAIN chunks} = 0..(L - 1)
\* each chunk starts where it has to, and is as long as it can be
Shape == /\ \A i \in DOMAIN chunks : chunks[i] = Nth(L, pay, ov, i - 1)
         /\ \A i \in DOMAIN chunks : chunks[i].len = pay \/ (done /\ i = Len(chunks))
         /\ \A i \in 1..(Len(chunks) - 1) : EndOf(chunks[i]) - chunks[i + 1].start = ov /\ EndOf(chunks[i]) < EndOf(chunks[i + 1])
         /\ done => Len(chunks) = Count(L, pay, ov)
Terms == Strings(MaxTerm) \ {<<>>}
\* an overlap of all but one of the bytes of the term finds each occurrence once,
\* more find it at least once
Finds == done => \A t \in Terms :
  /\ ov >= Len(t) - 1 => UNION {Found(file, t, chunks[i]) : i \in DOMAIN chunks} = Occurs(file, t)
  /\ ov = Len(t) - 1 => \A i, j \in DOMAIN chunks : i # j => Found(file, t, chunks[i]) \cap Found(file, t, chunks[j]) = {}
Emit == ~done \/ PrintT("X " \o ToJson([file |-> file, pay |-> pay, ov |-> ov]))
=============================================================================
