------------------------------ MODULE RangesGen ------------------------------
(***************************************************************************)
(* All ranges between small ends, walked one number at a time; the walk    *)
(* ends where the closed form of Ranges says.                              *)
(***************************************************************************)
EXTENDS Ranges, TLC, Json

CONSTANTS Far, MaxStep   \* the ends are -Far..Far
VARIABLES a, b, d, out, done
Ends == (-Far)..Far
vars == <<a, b, d, out, done>>

Init == a \in Ends /\ b \in Ends /\ d \in 1..MaxStep /\ out = <<a>> /\ done = FALSE
Last == out[Len(out)]
Towards == IF a < b THEN Last + d ELSE Last - d
Between(x) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
Next == /\ ~done
        /\ IF Between(Towards) THEN out' = Append(out, Towards) /\ UNCHANGED done
                               ELSE done' = TRUE /\ UNCHANGED out
        /\ UNCHANGED <<a, b, d>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inside == \A k \in DOMAIN out : Between(out[k])
Even == \A k \in 1..(Len(out) - 1) : Abs(out[k + 1] - out[k]) = d
Closed == done => out = Range(a, b, d) /\ Abs(b - Last) < d
Ends_ == <>done
Emit == ~done \/ PrintT("X " \o ToJson([a |-> a, b |-> b, d |-> d]))
=============================================================================
