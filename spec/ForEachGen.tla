----------------------------- MODULE ForEachGen -----------------------------
(***************************************************************************)
(* Workers that process an array in any order; with Serial one after the   *)
(* other, to enumerate every plan (a sequence of operations per worker).   *)
(***************************************************************************)
EXTENDS ForEach, Json

CONSTANTS Len0, N, Ops, MaxK, Serial

VARIABLES st, plan, seen
vars == <<st, plan, seen>>
W == 1..N
Fits(w, o) == IF o.op \in {"pop", "pops", "peek"} THEN o.k = 1 ELSE o.k <= Left(st, Len0, N, w)

Init == st = Start(Len0, N) /\ plan = [w \in W |-> <<>>] /\ seen = [j \in 0..(Len0 - 1) |-> 0]
Next == \E w \in W, o \in [op : Ops, k : 1..MaxK] :
          /\ Left(st, Len0, N, w) > 0
          /\ Serial => \A v \in W : v < w => Left(st, Len0, N, v) = 0
          /\ Fits(w, o)
          /\ IF o.op = "look" /\ plan[w] # <<>> THEN Last(plan[w]).op # "look" ELSE TRUE
          /\ LET r == Do(st, Len0, N, w, o)
                 first == Part(Len0, N, w).at + st.cur[w]
             IN /\ st' = r.st /\ plan' = [plan EXCEPT ![w] = Append(@, o)]
                /\ seen' = [j \in DOMAIN seen |-> seen[j] + (IF o.op # "look" /\ j >= first /\ j < first + (r.st.cur[w] - st.cur[w]) THEN 1 ELSE 0)]
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A w \in W : Left(st, Len0, N, w) = 0
\* every element goes to one worker once, and only the writers change it, once
Once == /\ \A j \in DOMAIN seen : seen[j] <= 1 /\ st.mem[j] \in {Value0(j), Written(Value0(j))}
        /\ Done => \A j \in DOMAIN seen : seen[j] = 1
Finishes == <>Done
Emit == ~Done \/ PrintT("X " \o ToJson(plan))
=============================================================================
