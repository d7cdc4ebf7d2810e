------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* What executing a graph of kernels means: kernels are activated, read    *)
(* from and write to streams, say stop or proceed, are finished, their     *)
(* output streams are closed, and the execution returns.                   *)
(*                                                                         *)
(* A program p is a record                                                 *)
(*   kernels  sequence of [kind, ins, outs, n, b]; ins and outs are        *)
(*            sequences of edge numbers; map: the map it belongs to        *)
(*   edges    sequence of [src, dst, cap]; cap = 0: no size asked for      *)
(*                                                                         *)
(* The state s of an execution is a record                                 *)
(*   hist[e]   everything written to edge e: a sequence of <<v, s, u>>     *)
(*             (value, signal, identity of the object or 0)                *)
(*   rd[e]     how many of these were read                                 *)
(*   closed[e] the stream was closed by the library                        *)
(*   log[k]    everything kernel k read, from any of its inputs            *)
(*   act[k]    kernel k is being executed; st[k] it has said stop          *)
(*   got[e], last[e]  for the library's own split and join kernels: which  *)
(*             elements of an edge into one have come out again, and the   *)
(*             position (in the input) of the last one on a branch         *)
(*   cap[e], obs[e], req[e]  capacity; how often the writer was found      *)
(*             blocked since the stream last grew; largest reservation     *)
(*                                                                         *)
(* MayX are the rules; the operators named like steps give the new state.  *)
(* PipelineGen explores all executions of small programs with them,        *)
(* PipelineTrace checks recorded executions of the real library.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Kernels(p) == 1..Len(p.kernels)
Edges(p)   == 1..Len(p.edges)
Kind(p, k) == p.kernels[k].kind
Ins(p, k)  == p.kernels[k].ins
Outs(p, k) == p.kernels[k].outs
Range(q)   == {q[i] : i \in 1..Len(q)}
InSet(p, k)  == Range(Ins(p, k))
OutSet(p, k) == Range(Outs(p, k))
Relay(p, k)  == Kind(p, k) \in {"split", "join"}
Src(p, e) == p.edges[e].src
Dst(p, e) == p.edges[e].dst

New(p) ==
  [hist |-> [e \in Edges(p) |-> <<>>], rd |-> [e \in Edges(p) |-> 0],
   closed |-> [e \in Edges(p) |-> FALSE], log |-> [k \in Kernels(p) |-> <<>>],
   act |-> [k \in Kernels(p) |-> FALSE], st |-> [k \in Kernels(p) |-> FALSE],
   got |-> [e \in Edges(p) |-> {}], last |-> [e \in Edges(p) |-> 0],
   cap |-> [e \in Edges(p) |-> 0], obs |-> [e \in Edges(p) |-> 0], req |-> [e \in Edges(p) |-> 0]]

Held(s, e) == Len(s.hist[e]) - s.rd[e]

-----------------------------------------------------------------------------
(* readiness and completion                                                 *)

AllClosed(p, s, k) == \A e \in InSet(p, k) : s.closed[e]

Ready(p, s, k) ==
  CASE InSet(p, k) = {}      -> TRUE
    [] Kind(p, k) = "zip"    -> \A e \in InSet(p, k) : Held(s, e) > 0
    [] OTHER                 -> \E e \in InSet(p, k) : Held(s, e) > 0

\* its work is exhausted
Exhausted(p, s, k) == InSet(p, k) # {} /\ AllClosed(p, s, k) /\ ~Ready(p, s, k)
Finished(p, s, k)  == ~s.act[k] /\ (s.st[k] \/ Exhausted(p, s, k))

MayActivate(p, s, k) == ~s.act[k] /\ ~s.st[k] /\ Ready(p, s, k)
MayClose(p, s, e)    == Finished(p, s, Src(p, e))
\* the execution of a map with the kernels K
MayReturn(p, s, K)   == \A k \in K : Finished(p, s, k)

-----------------------------------------------------------------------------
(* what a kernel writes: a function of what it has read                     *)

\* k-th element of a source
Made(k, j, kd, n) ==
  <<k * 1000 + j,
    IF kd = "late" THEN (IF j % 2 = 1 THEN 0 ELSE 6000 + j)
    ELSE IF j = n THEN 4095 ELSE IF j % 3 = 0 THEN 5000 + j ELSE 0, 0>>

\* "loop" kernels: what comes in new goes out on the second output, what comes
\* back on the second input goes out on the first
Sources == {"src", "late"}

\* j-th element written to its o-th output; there is one iff j <= OutLen
OutLen(p, s, k, o) ==
  CASE Kind(p, k) \in Sources -> p.kernels[k].n
    [] Kind(p, k) = "fan"     -> (Len(s.log[k]) + Len(Outs(p, k)) - o) \div Len(Outs(p, k))
    [] Kind(p, k) = "zip"     -> s.rd[Ins(p, k)[1]]
    [] Kind(p, k) = "loop"    -> s.rd[Ins(p, k)[3 - o]]
    [] Kind(p, k) = "drop"    -> Len(s.log[k]) \div 2
    [] OTHER                  -> Len(s.log[k])
OutEl(p, s, k, o, j) ==
  CASE Kind(p, k) \in Sources -> Made(k, j, Kind(p, k), p.kernels[k].n)
    [] Kind(p, k) = "fan"     -> s.log[k][(j - 1) * Len(Outs(p, k)) + o]
    [] Kind(p, k) = "zip"     -> s.hist[Ins(p, k)[1]][j]
    [] Kind(p, k) = "loop"    -> s.hist[Ins(p, k)[3 - o]][j]
    [] Kind(p, k) = "drop"    -> s.log[k][2 * j]
    [] OTHER                  -> s.log[k][j]
PosOut(p, k, e) == CHOOSE o \in 1..Len(Outs(p, k)) : Outs(p, k)[o] = e

Same(a, b)   == a[1] = b[1] /\ a[2] = b[2]
\* the same object, where its identity is known on both sides
SameObj(a, b) == Same(a, b) /\ (a[3] = b[3] \/ a[3] = 0 \/ b[3] = 0)

MayWrite(p, s, k, e, el) ==
  /\ s.act[k] /\ ~s.closed[e]
  /\ LET o == PosOut(p, k, e)
         j == Len(s.hist[e]) + 1
     IN /\ j <= OutLen(p, s, k, o)
        /\ IF Kind(p, k) \in {"fwd", "drop"} THEN SameObj(OutEl(p, s, k, o, j), el) ELSE Same(OutEl(p, s, k, o, j), el)
MayRead(p, s, k, e, el) ==
  s.act[k] /\ s.rd[e] < Len(s.hist[e]) /\ SameObj(s.hist[e][s.rd[e] + 1], el)
\* end of data: only when closed and everything was read
MaySee(p, s, k, e) == s.act[k] /\ s.closed[e] /\ Held(s, e) = 0

-----------------------------------------------------------------------------
(* steps                                                                    *)

Activate(s, k)     == [s EXCEPT !.act[k] = TRUE]
Return(s, k, stop) == [s EXCEPT !.act[k] = FALSE, !.st[k] = stop]
Write(s, e, el)    == [s EXCEPT !.hist[e] = Append(@, el)]
Look(s, k, el)     == [s EXCEPT !.log[k] = Append(@, el)]
Drop(s, e)         == [s EXCEPT !.rd[e] = @ + 1]
Read(s, k, e, el)  == [s EXCEPT !.rd[e] = @ + 1, !.log[k] = Append(@, el)]
Close(s, e)        == [s EXCEPT !.closed[e] = TRUE]

-----------------------------------------------------------------------------
(* the library's own split and join: every element that went in comes out  *)
(* once, with its signal; a join keeps the order of each input, a split    *)
(* the order within each branch                                            *)

Candidates(p, s, k, e, el) ==
  {c \in UNION {{<<i, j>> : j \in (1..Len(s.hist[i])) \ s.got[i]} : i \in InSet(p, k)} :
     /\ Same(s.hist[c[1]][c[2]], el)
     /\ IF Kind(p, k) = "join" THEN c[2] = Cardinality(s.got[c[1]]) + 1
                               ELSE c[2] > s.last[e]}
\* an element is seen on edge e, which comes out of relay k
Relayed(s, e, c, el) ==
  [s EXCEPT !.got[c[1]] = @ \cup {c[2]}, !.last[e] = c[2], !.hist[e] = Append(@, el)]

-----------------------------------------------------------------------------
(* all is done: what execution guarantees when it returns                   *)

Streams(p, K) == {e \in Edges(p) : Src(p, e) \in K}
Delivered(p, s, K) ==
  \A e \in Streams(p, K) :
    LET k == Dst(p, e) IN
      CASE Relay(p, k)        -> \/ s.got[e] = 1..Len(s.hist[e])
                                 \/ \E f \in OutSet(p, k) : Kind(p, Dst(p, f)) \in {"cut", "zip"}
        [] Kind(p, k) = "cut" -> TRUE
        [] Kind(p, k) = "zip" -> s.rd[e] = s.rd[Ins(p, k)[1]]
        [] OTHER              -> Held(s, e) = 0
Computed(p, s, K) ==
  \A k \in K : ~Relay(p, k) =>
    \A o \in 1..Len(Outs(p, k)) : Len(s.hist[Outs(p, k)[o]]) = OutLen(p, s, k, o)
Complete(p, s, K) ==
  /\ MayReturn(p, s, K)
  /\ \A e \in Streams(p, K) : s.closed[e]
  /\ Delivered(p, s, K)
  /\ Computed(p, s, K)

-----------------------------------------------------------------------------
(* buffers: the size asked for and no other, or the default size, which    *)
(* only grows, by doubling, after the writer was found blocked repeatedly  *)
(* or asked for more than fits                                             *)

Fixed(p, e) == p.edges[e].cap # 0
Doubled(a, b) == b > a /\ \E x \in {2, 4, 8, 16, 32, 64, 128, 256} : b = a * x
MayCreate(p, s, e, c) ==
  /\ s.cap[e] = 0
  /\ IF Fixed(p, e) THEN c = p.edges[e].cap
     ELSE c > 0 /\ \A f \in Edges(p) : ~Fixed(p, f) /\ s.cap[f] # 0 /\ s.obs[f] = 0 /\ s.req[f] = 0 => s.cap[f] = c
MayGrow(p, s, e, c) ==
  /\ ~Fixed(p, e)
  /\ \/ s.req[e] > s.cap[e] /\ Doubled(s.cap[e], c) /\ c \div 2 < s.req[e]
     \/ s.obs[e] >= 2 /\ c = 2 * s.cap[e]
\* a stream whose writer keeps being held up is made larger
MayIgnore(p, s, e) == Fixed(p, e) \/ s.obs[e] < 8
\* what a stream asked to grow from a to c comes out as
MayBecome(p, s, e, a, c, now) == now = c \/ (now = a /\ s.closed[e])
=============================================================================
