------------------------------- MODULE RingTSO -------------------------------
(***************************************************************************)
(* How a stream keeps the promises of module Stream while its buffer is    *)
(* replaced: the algorithm of the ring, load by load and store by store,   *)
(* on a machine whose processors have store buffers (x86).  A store is     *)
(* first seen by its own thread only, arrives in memory later, and none    *)
(* overtakes another; a load may be served before an earlier store of the  *)
(* same thread has arrived, unless there is a fence between them.          *)
(*                                                                         *)
(* Every operation announces itself (flag), then looks if a resize is on   *)
(* its way; the resize announces itself, then looks if someone is at work. *)
(* Each of the two needs a fence in between: with it, nobody touches a     *)
(* freed buffer and every element arrives, once and in order, without it   *)
(* (Fenced = FALSE) TLC finds the run that loses elements.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS First,     \* capacity at first
          Grow,      \* how much a resize adds to it
          Resizes,   \* how many there are
          N,         \* elements written
          Fenced     \* are there fences behind the announcements

Caps    == [i \in 1..(Resizes + 1) |-> First + ( i - 1 ) * Grow]
Threads == {"w", "r", "z"}
Bufs    == 1..Len(Caps)
(* locations *)
Flag(t)    == <<"flag", t>>
Resizing   == <<"resizing">>
Cur        == <<"cur">>
Wr(b)      == <<"wr", b>>
Rd(b)      == <<"rd", b>>
Closed(b)  == <<"closed", b>>
Cell(b, i) == <<"cell", b, i>>
Locs == {Flag("w"), Flag("r"), Resizing, Cur}
        \cup {Wr(b) : b \in Bufs} \cup {Rd(b) : b \in Bufs} \cup {Closed(b) : b \in Bufs}
        \cup UNION {{Cell(b, i) : i \in 0..(Caps[b] - 1)} : b \in Bufs}

VARIABLES mem,       \* what has arrived
          sb,        \* thread -> sequence of <<location, value>>
          pc,        \* thread -> where it is
          at,        \* thread -> the buffer it has got hold of
          tmp,       \* thread -> value read last
          sent,      \* elements published by the writer
          got,       \* what the reader obtained
          freed,     \* buffers given back
          wrong      \* someone touched a freed buffer
vars == <<mem, sb, pc, at, tmp, sent, got, freed, wrong>>

Of(s, l) == {i \in 1..Len(s) : s[i][1] = l}
Last(S)  == CHOOSE i \in S : \A j \in S : j <= i
Load(t, l) == IF Of(sb[t], l) = {} THEN mem[l] ELSE sb[t][Last(Of(sb[t], l))][2]
Buf(l) == IF l[1] \in {"wr", "rd", "closed", "cell"} THEN l[2] ELSE 0
Touch(l) == wrong' = (wrong \/ Buf(l) \in freed)
Touches(S) == wrong' = (wrong \/ \E l \in S : Buf(l) \in freed)

Store(t, l, v) == sb' = [sb EXCEPT ![t] = Append(@, <<l, v>>)]
Goto(t, p)     == pc' = [pc EXCEPT ![t] = p]

Init == /\ mem = [l \in Locs |-> IF l = Cur THEN 1 ELSE 0]
        /\ sb = [t \in Threads |-> <<>>]
        /\ pc = [t \in Threads |-> IF t = "z" THEN "announce" ELSE "enter"]
        /\ at = [t \in Threads |-> 1]
        /\ tmp = [t \in Threads |-> 0]
        /\ sent = 0 /\ got = <<>> /\ freed = {} /\ wrong = FALSE

(* the oldest store of a thread arrives *)
Arrive(t) == /\ sb[t] # <<>>
             /\ mem' = [mem EXCEPT ![sb[t][1][1]] = sb[t][1][2]]
             /\ sb' = [sb EXCEPT ![t] = Tail(@)]
             /\ Touch(sb[t][1][1])
             /\ UNCHANGED <<pc, at, tmp, sent, got, freed>>

Drained(t) == Fenced => sb[t] = <<>>

(* ---- both ends: announce, look, get hold of the buffer ---- *)
Enter(t) == /\ pc[t] = "enter"
            /\ Store(t, Flag(t), 1) /\ Goto(t, "look")
            /\ UNCHANGED <<mem, at, tmp, sent, got, freed, wrong>>
Look(t) == /\ pc[t] = "look" /\ Drained(t)
           /\ Goto(t, IF Load(t, Resizing) = 1 THEN "exit" ELSE "hold")
           /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed, wrong>>
Hold(t) == /\ pc[t] = "hold"
           /\ at' = [at EXCEPT ![t] = Load(t, Cur)]
           /\ Goto(t, "own")
           /\ UNCHANGED <<mem, sb, tmp, sent, got, freed, wrong>>
(* leave without having done anything, or after it *)
Exit(t) == /\ pc[t] = "exit"
           /\ Store(t, Flag(t), 0) /\ Goto(t, "next")
           /\ UNCHANGED <<mem, at, tmp, sent, got, freed, wrong>>

(* ---- writer ---- *)
WOwn == /\ pc["w"] = "own"
        /\ tmp' = [tmp EXCEPT !["w"] = Load("w", Wr(at["w"]))]
        /\ Touch(Wr(at["w"])) /\ Goto("w", "other")
        /\ UNCHANGED <<mem, sb, at, sent, got, freed>>
WOther == /\ pc["w"] = "other"
          /\ Touch(Rd(at["w"]))
          /\ Goto("w", IF sent = N THEN "close"
                       ELSE IF tmp["w"] - Load("w", Rd(at["w"])) < Caps[at["w"]] THEN "cell" ELSE "exit")
          /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed>>
WCell == /\ pc["w"] = "cell"
         /\ LET l == Cell(at["w"], tmp["w"] % Caps[at["w"]]) IN Store("w", l, sent + 1) /\ Touch(l)
         /\ Goto("w", "publish")
         /\ UNCHANGED <<mem, at, tmp, sent, got, freed>>
WPublish == /\ pc["w"] = "publish"
            /\ Store("w", Wr(at["w"]), tmp["w"] + 1) /\ Touch(Wr(at["w"]))
            /\ sent' = sent + 1 /\ Goto("w", "exit")
            /\ UNCHANGED <<mem, at, tmp, got, freed>>
WClose == /\ pc["w"] = "close"
          /\ Store("w", Closed(at["w"]), 1) /\ Touch(Closed(at["w"]))
          /\ Goto("w", "leave")
          /\ UNCHANGED <<mem, at, tmp, sent, got, freed>>
WLeave == /\ pc["w"] = "leave"
          /\ Store("w", Flag("w"), 0) /\ Goto("w", "done")
          /\ UNCHANGED <<mem, at, tmp, sent, got, freed, wrong>>
WNext == /\ pc["w"] = "next" /\ Goto("w", "enter")
         /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed, wrong>>

(* ---- reader ---- *)
ROwn == /\ pc["r"] = "own"
        /\ tmp' = [tmp EXCEPT !["r"] = Load("r", Wr(at["r"]))]
        /\ Touch(Wr(at["r"])) /\ Goto("r", "other")
        /\ UNCHANGED <<mem, sb, at, sent, got, freed>>
ROther == /\ pc["r"] = "other"
          /\ Touch(Rd(at["r"]))
          /\ LET mine == Load("r", Rd(at["r"]))
             IN IF tmp["r"] > mine THEN /\ tmp' = [tmp EXCEPT !["r"] = mine] /\ Goto("r", "cell")
                ELSE /\ UNCHANGED tmp /\ Goto("r", "closed?")
          /\ UNCHANGED <<mem, sb, at, sent, got, freed>>
RCell == /\ pc["r"] = "cell"
         /\ LET l == Cell(at["r"], tmp["r"] % Caps[at["r"]])
            IN got' = Append(got, Load("r", l)) /\ Touch(l)
         /\ Goto("r", "consume")
         /\ UNCHANGED <<mem, sb, at, tmp, sent, freed>>
RConsume == /\ pc["r"] = "consume"
            /\ Store("r", Rd(at["r"]), tmp["r"] + 1) /\ Touch(Rd(at["r"]))
            /\ Goto("r", "exit")
            /\ UNCHANGED <<mem, at, tmp, sent, got, freed>>
(* nothing there: closed, and still nothing there? *)
RClosed == /\ pc["r"] = "closed?"
           /\ Touch(Closed(at["r"]))
           /\ Goto("r", IF Load("r", Closed(at["r"])) = 1 THEN "again?" ELSE "exit")
           /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed>>
RAgain == /\ pc["r"] = "again?"
          /\ Touches({Wr(at["r"]), Rd(at["r"])})
          /\ Goto("r", IF Load("r", Wr(at["r"])) = Load("r", Rd(at["r"])) THEN "done" ELSE "exit")
          /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed>>
RNext == /\ pc["r"] = "next" /\ Goto("r", "enter")
         /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed, wrong>>

(* ---- the one who resizes ---- *)
ZAnnounce == /\ pc["z"] = "announce"
             /\ IF at["z"] = Len(Caps) \/ Load("z", Closed(at["z"])) = 1
                THEN Goto("z", "done") /\ UNCHANGED sb
                ELSE Store("z", Resizing, 1) /\ Goto("z", "clear?")
             /\ UNCHANGED <<mem, at, tmp, sent, got, freed, wrong>>
ZClear1 == /\ pc["z"] = "clear?" /\ Drained("z")
           /\ Goto("z", IF Load("z", Flag("w")) = 0 THEN "clear2?" ELSE "giveup")
           /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed, wrong>>
ZClear2 == /\ pc["z"] = "clear2?"
           /\ Goto("z", IF Load("z", Flag("r")) = 0 THEN "shape?" ELSE "giveup")
           /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed, wrong>>
(* the elements have to lie in one piece, they keep their places *)
ZShape == /\ pc["z"] = "shape?"
          /\ LET b == at["z"]
                 rp == Load("z", Rd(b)) % Caps[b]
                 wp == Load("z", Wr(b)) % Caps[b]
             IN Goto("z", IF rp < wp \/ Load("z", Rd(b)) = Load("z", Wr(b)) THEN "copy" ELSE "giveup")
          /\ UNCHANGED <<mem, sb, at, tmp, sent, got, freed, wrong>>
ZGiveUp == /\ pc["z"] = "giveup"
           /\ Store("z", Resizing, 0) /\ Goto("z", "announce")
           /\ UNCHANGED <<mem, at, tmp, sent, got, freed, wrong>>
(* the new buffer is nobody else's before Cur is stored: one step *)
ZCopy == /\ pc["z"] = "copy"
         /\ LET b == at["z"]  c == b + 1
                rd == Load("z", Rd(b))  wr == Load("z", Wr(b))
                rp == rd % Caps[b]      n == wr - rd
                cells == [i \in 1..Caps[b] |-> <<Cell(c, i - 1), Load("z", Cell(b, i - 1))>>]
            IN /\ sb' = [sb EXCEPT !["z"] = @ \o cells \o << <<Rd(c), rp>>, <<Wr(c), rp + n>>, <<Closed(c), Load("z", Closed(b))>> >>
                                                    \o << <<Cur, c>> >>]
               /\ Touches({Rd(b), Wr(b), Closed(b)})
         /\ Goto("z", "free")
         /\ UNCHANGED <<mem, at, tmp, sent, got, freed>>
ZFree == /\ pc["z"] = "free" /\ sb["z"] = <<>>          \* free() is a fence in practice
         /\ freed' = freed \cup {at["z"]}
         /\ at' = [at EXCEPT !["z"] = @ + 1]
         /\ Goto("z", "giveup")
         /\ UNCHANGED <<mem, sb, tmp, sent, got, wrong>>

Next == \/ \E t \in Threads : Arrive(t)
        \/ \E t \in {"w", "r"} : Enter(t) \/ Look(t) \/ Hold(t) \/ Exit(t)
        \/ WOwn \/ WOther \/ WCell \/ WPublish \/ WClose \/ WLeave \/ WNext
        \/ ROwn \/ ROther \/ RCell \/ RConsume \/ RClosed \/ RAgain \/ RNext
        \/ ZAnnounce \/ ZClear1 \/ ZClear2 \/ ZShape \/ ZGiveUp \/ ZCopy \/ ZFree
Spec == Init /\ [][Next]_vars

(* what module Stream promises *)
InOrder   == \A i \in 1..Len(got) : got[i] = i
Untouched == ~wrong
Complete  == pc["r"] = "done" => Len(got) = N
Bounded   == LET b == mem[Cur] IN b \in Bufs /\ mem[Wr(b)] >= mem[Rd(b)] /\ mem[Wr(b)] - mem[Rd(b)] <= Caps[b]
Sound     == InOrder /\ Untouched /\ Complete /\ Bounded
(* whatever happened, there is a way to go on until all is done *)
Done == pc["w"] = "done" /\ pc["r"] = "done" /\ pc["z"] = "done" /\ \A t \in Threads : sb[t] = <<>>
Ends == Done \/ ENABLED Next
=============================================================================
