------------------------------- MODULE Chunks -------------------------------
(***************************************************************************)
(* A file read in chunks, and searched (C21).                              *)
(*                                                                         *)
(* A file is a string. A chunk holds up to pay bytes, each chunk but the   *)
(* first starts ov bytes (ov < pay) before the end of the one before.      *)
(* Offsets count from 0. c: [start, len, index]. Reading stops with the    *)
(* chunk that ends at the end of the file; an empty file is one empty      *)
(* chunk.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Min2(a, b) == IF a < b THEN a ELSE b

First(L, pay) == [start |-> 0, len |-> Min2(pay, L), index |-> 0]
EndOf(c) == c.start + c.len
IsLast(c, L) == EndOf(c) = L
After(c, L, pay, ov) == [start |-> EndOf(c) - ov, len |-> Min2(pay, L - (EndOf(c) - ov)), index |-> c.index + 1]

\* their number, and each by itself
Count(L, pay, ov) == IF L <= pay THEN 1 ELSE 1 + (L - pay + (pay - ov) - 1) \div (pay - ov)
Nth(L, pay, ov, i) == LET s == i * (pay - ov) IN [start |-> s, len |-> Min2(pay, L - s), index |-> i]

Text(file, c) == SubSeq(file, c.start + 1, EndOf(c))

\* where term begins in text
Occurs(text, term) == {i \in 0..(Len(text) - Len(term)) : SubSeq(text, i + 1, i + Len(term)) = term}
\* and in the file, looking at chunk c only
Found(file, term, c) == {c.start + i : i \in Occurs(Text(file, c), term)}
=============================================================================
