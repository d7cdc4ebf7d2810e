--------------------------- MODULE StreamReplay ---------------------------
(***************************************************************************)
(* Run-to-quiescence version of Stream, used to generate the complete      *)
(* behaviour graph that is replayed on the real FIFO: a controller issues  *)
(* one operation to an idle thread (writer, reader or resizer), then all   *)
(* threads run until each is idle or waiting.  Every transition is emitted *)
(* (PrintT) for the replay driver, with what must be observable after it.  *)
(*                                                                         *)
(* Element values are symbolic: the k-th value ever written is k.  To keep *)
(* the graph finite every state is rebased (all outstanding values are     *)
(* shifted down by the emitted amount d); the replay driver undoes the     *)
(* shift, so that on the real stream every element has its own value.      *)
(* The position in the ring (st.con, modulo capacity) is part of the       *)
(* state, so that every operation is exercised at every wrap position.     *)
(***************************************************************************)
EXTENDS Stream, TLC, FiniteSets

CONSTANTS Cap,        \* initial capacity
          Sigs,       \* signals used
          WOps, ROps, \* operations exercised by writer and reader
          ZOps,       \* and by the controller: "resize", "stat"
          RCaps,      \* capacities the stream is resized to
          MaxN        \* largest count argument

VARIABLES st, w, r, z,
          nv,    \* the next value to write
          bl     \* blocked indicator: 0, 1, or 2 (either: schedule dependent)

vars == <<st, w, r, z, nv, bl>>

Vals(n) == [i \in 1..n |-> nv + i - 1]

\* the ring can be copied only while its contents are contiguous
ZStep(s, o) ==
  IF o.x /= "run" THEN {}
  ELSE IF s.closed THEN Step(s, o)
  ELSE IF s.q = <<>> \/ (s.con % s.cap) + Len(s.q) < s.cap
  THEN {[c EXCEPT !.st.con = s.con % s.cap] : c \in Step(s, o)}
  ELSE {}

\* all threads run until none can take a step (the stream is a Kahn
\* channel, so the order does not matter for the outcome; the writer goes
\* first, so f tells whether it could have found the stream full)
RECURSIVE Settle(_, _, _, _, _)
Settle(s0, w0, r0, z0, f) ==
  IF Step(s0, w0) /= {}
  THEN LET c == CHOOSE c \in Step(s0, w0) : TRUE IN Settle(c.st, c.o, r0, z0, f)
  ELSE IF Step(s0, r0) /= {}
  THEN LET c == CHOOSE c \in Step(s0, r0) : TRUE
           cs == [c.st EXCEPT !.con = @ % s0.cap]
       IN Settle(cs, w0, c.o, z0, f \/ w0.x = "run")
  ELSE IF ZStep(s0, z0) /= {}
  THEN LET c == CHOOSE c \in ZStep(s0, z0) : TRUE IN Settle(c.st, w0, r0, c.o, f)
  ELSE [st |-> s0, w |-> w0, r |-> r0, z |-> z0, f |-> f]

\* a finished operation leaves no trace in the state
Forget(o) == IF o.x = "run" THEN o ELSE Idle

\* values still needed, oldest first
Outstanding(s, w0, r0) ==
     [i \in 1..Len(r0.out) |-> r0.out[i].v] \o [i \in 1..Len(s.q) |-> s.q[i].v] \o s.rv \o w0.a

ShiftS(t, d) == [i \in 1..Len(t) |-> t[i] - d]
ShiftE(t, d) == [i \in 1..Len(t) |-> [t[i] EXCEPT !.v = @ - d]]

WIdle == w.x /= "run"
RIdle == r.x /= "run"
ZIdle == z.x /= "run"

Init == st = NewStream(Cap) /\ w = Idle /\ r = Idle /\ z = Idle /\ nv = 1 /\ bl = 0

IsWrite(o) == o.op \in {"push", "pushm", "insl", "insv", "alloc", "allocr", "allocs"}

Simple == {"push", "pushm", "alloc", "allocs", "allocr", "send", "sendr", "dealloc", "close",
           "pop", "popn", "pops", "peek", "look", "unpeek", "peekr"}

\* the state as nested tuples, for printing
Els(t)  == [i \in 1..Len(t) |-> <<t[i].v, t[i].s>>]
OpT(o)  == IF o.x = "run" THEN <<o.op, o.a, o.s, Els(o.out), o.ph>> ELSE <<"idle">>
Key(s, w0, r0, z0, n, b) ==
  ToString(<<Els(s.q), s.cap, s.closed, s.rv, s.rk, s.held, s.lk, s.con, OpT(w0), OpT(r0), OpT(z0), n, b>>)

Issue(who, o) ==
  LET e  == Settle(st, IF who = "w" THEN o ELSE w, IF who = "r" THEN o ELSE r,
                   IF who = "z" /\ o.op = "resize" THEN o ELSE z, FALSE)
      \* values of a reservation that is given back are used again
      n1 == IF IsWrite(o) THEN nv + Len(o.a)
            ELSE IF o.op = "dealloc" THEN nv - Len(st.rv) ELSE nv
      w1 == Forget(e.w)
      r1 == Forget(e.r)
      z1 == Forget(e.z)
      os == Outstanding(e.st, w1, r1)
      d  == (IF os = <<>> THEN n1 ELSE Head(os)) - 1
      c  == e.st.con % e.st.cap
      s2 == [e.st EXCEPT !.q = ShiftE(@, d), !.rv = ShiftS(@, d), !.con = c, !.pub = c + Len(e.st.q)]
      w2 == IF w1.x = "run" THEN [w1 EXCEPT !.a = ShiftS(@, d)] ELSE w1
      r2 == [r1 EXCEPT !.out = ShiftE(@, d)]
      b2 == IF "stat" \notin ZOps THEN 0
            ELSE IF w1.x = "run" THEN 1
            ELSE IF o.op = "stat" THEN 0
            ELSE IF bl # 1 /\ ~ZIdle /\ IsWrite(o) THEN 2     \* held up by the resize
            ELSE IF bl # 1 /\ (e.f \/ (r.x = "run" /\ o.op \in {"insl", "insv"})) /\ w.x /= "run" THEN 2
            ELSE bl
  IN  /\ Assert(StreamOK([e.st EXCEPT !.pub = e.st.con + Len(e.st.q)]), <<"stream invariant", e>>)
      \* while a resize is pending only what has one outcome is issued
      /\ ~ZIdle => WIdle /\ RIdle /\ w1.x /= "run" /\ r1.x /= "run"
                   /\ (o.op \in Simple \/ (o.op = "recycle" /\ o.a[1] <= 1))
                   \* a new look replaces (first gives up) the one before
                   /\ ~(o.op \in {"peek", "peekr"} /\ st.lk)
      /\ st' = s2 /\ w' = w2 /\ r' = r2 /\ z' = z1 /\ nv' = n1 - d /\ bl' = b2
      /\ PrintT("T#" \o Key(st, w, r, z, nv, bl) \o "#" \o who \o "#" \o o.op
                \o "#" \o ToString(o.a) \o "#" \o ToString(o.s)
                \o "#" \o Key(s2, w2, r2, z1, n1 - d, b2) \o "#" \o ToString(d)
                \o "#" \o e.w.x \o "#" \o e.r.x \o "#" \o e.z.x
                \o "#" \o ToString([i \in 1..Len(e.r.out) |-> <<e.r.out[i].v, e.r.out[i].s>>])
                \o "#" \o ToString(<<Len(e.st.q), Room(e.st), e.st.cap,
                     Len(e.st.q) + (IF e.st.rk = "range" THEN 0 ELSE Len(e.st.rv)),
                     IF e.st.closed THEN 1 ELSE 0, bl, e.st.pub - st.pub>>))

\* the calling protocol: a reservation is sent or given back before the
\* next write, and nothing is written to a closed stream
WriterIssues ==
  /\ WIdle
  /\ \/ /\ st.rk = "no" /\ ~st.closed
        /\ \/ \E s \in Sigs, p \in {"push", "pushm", "allocs"} \cap WOps : Issue("w", Op(p, Vals(1), s))
           \/ \E s \in Sigs, n \in 0..MaxN, p \in {"insl", "insv"} \cap WOps : Issue("w", Op(p, Vals(n), s))
           \/ "alloc" \in WOps /\ Issue("w", Op("alloc", Vals(1), None))
           \/ "allocr" \in WOps /\ \E n \in 1..(IF MaxN < st.cap THEN MaxN ELSE st.cap) : Issue("w", Op("allocr", Vals(n), None))
           \/ "send" \in WOps /\ Issue("w", Op("send", <<>>, None))
           \/ "sendr" \in WOps /\ Issue("w", Op("sendr", <<>>, None))
           \/ "close" \in WOps /\ Issue("w", Op("close", <<>>, None))
     \/ /\ st.rk /= "no"
        /\ \/ \E s \in Sigs : Issue("w", Op(IF st.rk = "one" THEN "send" ELSE "sendr", <<>>, s))
           \/ "dealloc" \in WOps /\ Issue("w", Op("dealloc", <<>>, None))

ReaderIssues ==
  /\ RIdle
  /\ \/ \E p \in {"pop", "popn", "pops", "peek"} \cap ROps : Issue("r", Op(p, <<>>, None))
     \/ \E n \in 0..MaxN, p \in {"popr", "recycle", "peekr"} \cap ROps : Issue("r", Op(p, <<n>>, None))
     \/ st.held > 0 /\ Issue("r", Op("look", <<>>, None))
     \/ st.lk /\ Issue("r", Op("unpeek", <<>>, None))

ControlIssues ==
  \/ "resize" \in ZOps /\ ZIdle /\ WIdle /\ RIdle
       /\ \E n \in RCaps : n > st.cap /\ Issue("z", Op("resize", <<n>>, None))
  \/ "stat" \in ZOps /\ ZIdle /\ Issue("z", Op("stat", <<>>, None))

Next == WriterIssues \/ ReaderIssues \/ ControlIssues

Spec == Init /\ [][Next]_vars
=============================================================================
