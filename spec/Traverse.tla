------------------------------ MODULE Traverse ------------------------------
(***************************************************************************)
(* A breadth first search, one output port at a time, over every graph of  *)
(* N kernels with up to Ports output ports each (see Search).              *)
(***************************************************************************)
EXTENDS Search
CONSTANTS N, Ports          \* kernels, output ports of each

VARIABLES to,               \* to[u][p]: the kernel port p of u feeds, 0 for none
          start, strict, queue, seen, calls, kernels, at, refused

vars == <<to, start, strict, queue, seen, calls, kernels, at, refused>>

Ks == 1..N
Edges == {<<u, p, to[u][p], u * 10 + p>> : <<u, p>> \in {x \in Ks \X (1..Ports) : to[x[1]][x[2]] # 0}}
Open  == {x \in Ks \X (1..Ports) : to[x[1]][x[2]] = 0}

TInit ==
  /\ to \in [Ks -> [1..Ports -> 0..N]]
  /\ start \in (SUBSET Ks \ {{}})
  /\ strict \in BOOLEAN
  /\ queue = SetToSortSeq(start, <)
  /\ seen = start
  /\ calls = <<>> /\ kernels = <<>> /\ at = 0 /\ refused = FALSE

\* one output port of the kernel at the head of the queue
TNext ==
  /\ queue # <<>> /\ ~refused
  /\ LET u == Head(queue)  p == at + 1 IN
     IF p > Ports
     THEN /\ queue' = Tail(queue) /\ at' = 0 /\ kernels' = Append(kernels, u)
          /\ UNCHANGED <<seen, calls, refused>>
     ELSE LET v == to[u][p] IN
          /\ IF v = 0
             THEN /\ refused' = strict
                  /\ UNCHANGED <<queue, seen, calls>>
             ELSE /\ calls' = Append(calls, <<u, p, v, u * 10 + p>>)
                  /\ queue' = IF v \in seen THEN queue ELSE Append(queue, v)
                  /\ seen' = seen \cup {v}
                  /\ UNCHANGED refused
          /\ at' = p
          /\ UNCHANGED kernels
  /\ UNCHANGED <<to, start, strict>>

TSpec == TInit /\ [][TNext]_vars /\ WF_vars(TNext)

Over == queue = <<>> \/ refused
\* what the library owes to its caller
CallsAreRight ==
  /\ (Over /\ ~strict) => EdgeCalls(Edges, start, calls) /\ VertexCalls(Edges, start, kernels)
  /\ (Over /\ strict) => StrictCalls(Edges, Open, start, calls, refused)
\* every kernel waits in the queue at most once
QueueOnce == Once(queue) /\ ToSet(queue) \subseteq seen /\ seen \subseteq ReachOf(Edges, start)
Ends == <>Over
=============================================================================
