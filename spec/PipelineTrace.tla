--------------------------- MODULE PipelineTrace ---------------------------
(***************************************************************************)
(* Is every recorded execution of the real library one that Pipeline       *)
(* allows?  traces.json holds a sequence of [p, ev]; events are             *)
(*   n e c   stream of edge e created with capacity c      d e  destroyed  *)
(*   a k     run() of kernel k entered       z k s  it returned (s: stop)  *)
(*   w k e v about to be written    r k e v  read    s k e  closed seen    *)
(*   p k e v seen by peek           y k e    recycled                      *)
(*   c e     the library closes edge e       q e c  c slots asked for      *)
(*   b e f   writer found blocked (percent)  g e c  asked to grow to c     *)
(*   h e c   capacity afterwards                                           *)
(*   x m     exe() of map m returned                                       *)
(* Every execution is an initial state; OK is printed for each that is     *)
(* explained to its end, STUCK with the position for each that is not.     *)
(***************************************************************************)
EXTENDS Pipeline, TLC, Json, Integers

Traces == JsonDeserialize("traces.json")

VARIABLES tr, i, s, over

vars == <<tr, i, s, over>>
P  == Traces[tr].p
Ev == Traces[tr].ev

Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = New(Traces[tr].p) /\ over = {}

\* for edges around the library's split and join only bounds are known
Loose(p, k) == Relay(p, k) \/ \E e \in InSet(p, k) : Relay(p, Src(p, e))
Left(e)     == Cardinality(s.got[e]) < Len(s.hist[e])
Possible(e) ==
  IF Relay(P, Dst(P, e)) THEN Left(e)
  ELSE IF Relay(P, Src(P, e)) THEN Held(s, e) > 0 \/ \E f \in InSet(P, Src(P, e)) : Left(f)
  ELSE Held(s, e) > 0
CouldActivate(k) ==
  IF ~Loose(P, k) THEN MayActivate(P, s, k)
  ELSE /\ ~s.act[k] /\ ~s.st[k]
       /\ IF Kind(P, k) = "zip" THEN \A e \in InSet(P, k) : Possible(e)
                                ELSE \E e \in InSet(P, k) : Possible(e)
CouldFinish(k) ==
  IF ~Loose(P, k) THEN Finished(P, s, k)
  ELSE ~s.act[k] /\ (s.st[k] \/ AllClosed(P, s, k))

\* the list of elements v, one after the other
RECURSIVE Writes(_, _, _, _, _)
Writes(st, k, e, v, j) ==     \* <<new state>> or <<>>
  IF j > Len(v) THEN <<st>>
  ELSE IF MayWrite(P, st, k, e, v[j]) THEN Writes(Write(st, e, v[j]), k, e, v, j + 1) ELSE <<>>
RECURSIVE Reads(_, _, _, _, _)
Reads(st, k, e, v, j) ==
  IF j > Len(v) THEN <<st>>
  ELSE IF Relay(P, Src(P, e))
       THEN LET c == Candidates(P, st, Src(P, e), e, v[j])
            IN IF st.act[k] /\ c # {}
               THEN Reads(Read(Relayed(st, e, CHOOSE x \in c : \A y \in c : x[2] <= y[2], v[j]), k, e, v[j]), k, e, v, j + 1)
               ELSE <<>>
       ELSE IF MayRead(P, st, k, e, v[j]) THEN Reads(Read(st, k, e, v[j]), k, e, v, j + 1) ELSE <<>>

MapOf(k)   == P.kernels[k].map
Members(m) == {k \in Kernels(P) : MapOf(k) = m}
Where(E)   == CASE E.k = "x" -> E.m [] "n" \in DOMAIN E -> MapOf(E.n) [] OTHER -> MapOf(Src(P, E.e))

After(E) ==      \* {new state} if the event is allowed
  CASE E.k = "n" -> IF MayCreate(P, s, E.e, E.c) THEN {[s EXCEPT !.cap[E.e] = E.c]} ELSE {}
    [] E.k = "a" -> IF CouldActivate(E.n) THEN {Activate(s, E.n)} ELSE {}
    [] E.k = "z" -> IF s.act[E.n] THEN {Return(s, E.n, E.s)} ELSE {}
    [] E.k = "w" -> LET r == Writes(s, E.n, E.e, E.v, 1) IN IF r = <<>> THEN {} ELSE {r[1]}
    [] E.k = "r" -> LET r == Reads(s, E.n, E.e, E.v, 1) IN IF r = <<>> THEN {} ELSE {r[1]}
    [] E.k = "p" /\ Relay(P, Src(P, E.e)) ->
         LET c == Candidates(P, s, Src(P, E.e), E.e, E.v[1])
         IN IF s.act[E.n] /\ c # {}
            THEN {Look(Relayed(s, E.e, CHOOSE x \in c : \A y \in c : x[2] <= y[2], E.v[1]), E.n, E.v[1])} ELSE {}
    [] E.k = "p" -> IF MayRead(P, s, E.n, E.e, E.v[1]) THEN {Look(s, E.n, E.v[1])} ELSE {}
    [] E.k = "y" -> IF s.act[E.n] /\ Held(s, E.e) > 0 THEN {Drop(s, E.e)} ELSE {}
    [] E.k = "s" -> IF IF Relay(P, Src(P, E.e)) THEN s.act[E.n] /\ s.closed[E.e] ELSE MaySee(P, s, E.n, E.e) THEN {s} ELSE {}
    [] E.k = "c" -> IF CouldFinish(Src(P, E.e)) THEN {Close(s, E.e)} ELSE {}
    [] E.k = "q" -> {[s EXCEPT !.req[E.e] = IF E.c > @ THEN E.c ELSE @]}
    [] E.k = "b" -> IF MayIgnore(P, s, E.e) THEN {[s EXCEPT !.obs[E.e] = IF E.f >= 80 THEN @ + 1 ELSE @]} ELSE {}
    [] E.k = "g" -> IF MayGrow(P, s, E.e, E.c) THEN {[s EXCEPT !.obs[E.e] = 0]} ELSE {}
    [] E.k = "h" -> IF MayBecome(P, s, E.e, s.cap[E.e], E.w, E.c) THEN {[s EXCEPT !.cap[E.e] = E.c]} ELSE {}
    [] E.k = "d" -> IF \A k \in Members(MapOf(Src(P, E.e))) : CouldFinish(k) THEN {s} ELSE {}
    [] E.k = "x" -> LET K == Members(E.m) IN
                    IF Complete(P, s, K) \/ (/\ \E k \in K : Loose(P, k)
                                             /\ \A k \in K : CouldFinish(k)
                                             /\ \A e \in Streams(P, K) : s.closed[e]
                                             /\ Delivered(P, s, K) /\ Computed(P, s, K))
                    THEN {s} ELSE {}
    [] OTHER     -> {}

\* nothing happens in a map after the return
Next == /\ i <= Len(Ev) /\ Ev[i].k # "empty" /\ Where(Ev[i]) \notin over
        /\ \E t \in After(Ev[i]) : s' = t
        /\ over' = IF Ev[i].k = "x" THEN over \cup {Ev[i].m} ELSE over
        /\ i' = i + 1 /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars

Sound ==
  /\ \A e \in Edges(P) : s.rd[e] <= Len(s.hist[e])
  /\ IF i = Len(Ev) + 1 THEN over = {MapOf(k) : k \in Kernels(P)} => PrintT("OK " \o ToString(tr))
     ELSE ENABLED Next \/ PrintT("STUCK " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
