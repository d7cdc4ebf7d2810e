--------------------------- MODULE AdaptorsTrace ---------------------------
(***************************************************************************)
(* Does Adaptors allow what the real kernels did? results.json is a        *)
(* sequence of [k, batches, stages, delim, text, op, obs]: op says how the elements of the streams are put together, if they are; with text, obs is the  *)
(* string that was printed; otherwise the sequence of the elements that    *)
(* reached the container. OK is printed for each result that is explained  *)
(* to its end; a result with an impossible end gets no OK.                 *)
(***************************************************************************)
EXTENDS Adaptors, Json

Results == JsonDeserialize("results.json")
VARIABLES r, st, at      \* at: how much of obs is explained
vars == <<r, st, at>>
R == Results[r]

Init == r \in DOMAIN Results /\ st = Start(Results[r].k) /\ at = 0
Put(e) == IF R.text THEN Printed(e, R.stages, R.delim) ELSE <<Image(e, R.stages)>>
Next == \/ MayFeed(st, R.batches) /\ st' = Feed(st, R.batches) /\ UNCHANGED <<r, at>>
        \/ /\ R.op # "" /\ MayTakeAll(st) /\ at < Len(R.obs)
           /\ R.obs[at + 1] = Together(st, R.op)
           /\ at' = at + 1 /\ st' = TakeAll(st) /\ UNCHANGED r
        \/ \E i \in DOMAIN st.q :
             /\ R.op = "" /\ MayTake(st, i)
             /\ LET p == Put(Taken(st, i)) IN
                /\ at + Len(p) <= Len(R.obs)
                /\ SubSeq(R.obs, at + 1, at + Len(p)) = p
                /\ at' = at + Len(p)
             /\ st' = Take(st, i)
             /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Judge == IF Over(st, R.batches) /\ at = Len(R.obs) THEN PrintT("OK " \o ToString(r)) ELSE TRUE
=============================================================================
