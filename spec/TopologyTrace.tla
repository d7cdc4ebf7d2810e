--------------------------- MODULE TopologyTrace ---------------------------
(***************************************************************************)
(* Checks what the real library did with recorded programs against         *)
(* Topology: results.json is a sequence of                                 *)
(*   [ks, stmts, exe, obs]                                                 *)
(* stmts  sequence of [t |-> "expr", items, ops] or                        *)
(*        [t |-> "link", a, ap, b, bp, ooo, cap] or                        *)
(*        [t |-> "try"]: the graph so far, which is not complete, executed *)
(* exe    TRUE: the graph was executed afterwards                          *)
(* obs    what was observed:                                               *)
(*   stmts  sequence of [r, src, dst]; r is "ok" or the exception          *)
(*   exe    "ok", an exception, or "none"                                  *)
(*   acts   how many kernels were activated                                *)
(*   edges  <<u, p, v, q>>: an element went from port p of object u to     *)
(*          port q of object v; caps the same with the capacity            *)
(*   dotv, dote  the vertices and <<u, p, v, q, ooo>> of the exported      *)
(*          description                                                    *)
(*   class  <<u, k>>: object u is an instance of kernel k (u = k: the      *)
(*          kernel itself, otherwise a clone)                              *)
(*   ids    <<u, id>>                                                      *)
(*   early  objects destroyed before the map was, late: while the map      *)
(*          was destroyed (a sequence), own: created by the library        *)
(***************************************************************************)
EXTENDS Topology, TLC, Json

CONSTANT Step

Results == JsonDeserialize("results.json")

VARIABLES i

ExName == [PortNotFound |-> "PortNotFoundException", Ambiguous |-> "AmbiguousPortAssignmentException",
           Type |-> "PortTypeMismatchException", Double |-> "PortDoubleInitializeException",
           Clone |-> "CloneNotImplementedException", Topology |-> "InvalidTopologyOperationException", Unconnected |-> "PortUnconnectedException"]

\* a kernel mentioned with more than two port names
TooMany(st) == st.t = "expr" /\ \E j \in 1..Len(st.items) : st.items[j].many

Do(ks, g, st) ==
  IF st.t = "expr" THEN Expr(ks, g, st.items, st.ops)
  ELSE LET h == Link(ks, g, <<st.a, 0>>, st.ap, <<st.b, 0>>, st.bp, st.ooo, st.cap)
       IN [g |-> h, src |-> <<<<st.a, 0>>>>, dst |-> <<<<st.b, 0>>>>]

\* The results of the statements up to the first refused expression. A link
\* that is refused leaves the streams as they are, and the program goes on.
Meaning(R) ==
  LET one(m, st) ==
        IF m.g.faults # {} THEN m
        ELSE IF st.t = "try"
        THEN [m EXCEPT !.rs = Append(@, [g |-> [m.g EXCEPT !.faults = IF Unconnected(R.ks, m.g) THEN {"Unconnected"} ELSE {}], src |-> <<>>, dst |-> <<>>])]
        ELSE LET r == Do(R.ks, m.g, st)
                 f == IF TooMany(st) THEN {"Ambiguous"} ELSE r.g.faults
             IN [g |-> IF f # {} /\ st.t = "link" THEN [m.g EXCEPT !.inst = @ \cup {<<st.a, 0>>, <<st.b, 0>>}]
                       ELSE [r.g EXCEPT !.faults = f],
                 rs |-> Append(m.rs, [r EXCEPT !.g.faults = f])]
  IN FoldLeft(one, [g |-> Empty(R.ks), rs |-> <<>>], R.stmts)

\* the capacity of a stream nothing was said about
DefaultCap == 64

Tuples(q) == {q[j] : j \in 1..Len(q)}

\* which object stands for which instance
RECURSIVE Grow(_, _, _)
Grow(M, E, O) ==
  LET fwd == {<<e.dst, o[3]>> : <<e, o>> \in {x \in E \X O : x[1].sp = x[2][2] /\ x[1].dp = x[2][4] /\ <<x[1].src, x[2][1]>> \in M}}
      bwd == {<<e.src, o[1]>> : <<e, o>> \in {x \in E \X O : x[1].sp = x[2][2] /\ x[1].dp = x[2][4] /\ <<x[1].dst, x[2][3]>> \in M}}
  IN IF fwd \cup bwd \subseteq M THEN M ELSE Grow(M \cup fwd \cup bwd, E, O)

\* the instances that can be reached from the kernels without inputs: a
\* description exported before the execution shows the streams between these
RECURSIVE Reach(_, _)
Reach(E, X) == LET Y == X \cup {e.dst : e \in {e \in E : e.src \in X}} IN IF Y = X THEN X ELSE Reach(E, Y)

Complaints(R) ==
  LET m   == Meaning(R)
      o   == R.obs
      g   == m.g
      n   == Len(m.rs)
      bad == g.faults # {}
      Ill(j) == m.rs[j].g.faults # {}
      both == {j \in 1..n : j <= Len(o.stmts)}
      asked == Len(o.stmts) = n /\ \A j \in both : Ill(j) <=> o.stmts[j].r # "ok"
      un  == ~bad /\ Unconnected(R.ks, g)
      rch == Reach(g.edges, {x \in g.inst : R.ks[x[1]].ins = <<>>})
      E   == IF o.exe = "ok" THEN g.edges ELSE {e \in g.edges : e.src \in rch}
      I   == IF o.exe = "ok" THEN g.inst ELSE rch \cup {x \in g.inst : x[2] = 0}
      O   == IF o.exe = "ok" THEN Tuples(o.edges) ELSE {<<e[1], e[2], e[3], e[4]>> : e \in Tuples(o.dote)}
      M   == Grow({<<<<k, 0>>, k>> : k \in {k \in 1..Len(R.ks) : <<k, 0>> \in g.inst}}, E, O)
      Obj(x) == (CHOOSE p \in M : p[1] = x)[2]
      func == /\ {p[1] : p \in M} = I
              /\ Cardinality({p[2] : p \in M}) = Cardinality(M) /\ Cardinality(M) = Cardinality(I)
      img  == {<<Obj(e.src), e.sp, Obj(e.dst), e.dp>> : e \in E}
      cls  == Tuples(o.class)
      who(q) == {Obj(q[j]) : j \in 1..Len(q)}
      own  == ToSet(o.own)
  IN
  \* C16: refused when ill-formed, and only then
     (IF Len(o.stmts) # n \/ \E j \in both : Ill(j) /\ o.stmts[j].r = "ok" THEN {"refusal-place"} ELSE {})
   \cup (IF \E j \in both : Ill(j) /\ o.stmts[j].r # "ok" /\ o.stmts[j].r \notin {ExName[f] : f \in m.rs[j].g.faults} THEN {"refusal-kind"} ELSE {})
   \cup (IF \E j \in both : ~Ill(j) /\ o.stmts[j].r # "ok" THEN {"refused-wellformed"} ELSE {})
   \cup (IF ~bad /\ R.exe /\ un /\ o.exe # "PortUnconnectedException" THEN {"unconnected-accepted"} ELSE {})
   \cup (IF ~bad /\ R.exe /\ ~un /\ o.exe # "ok" THEN {"refused-execution"} ELSE {})
   \cup (IF (bad \/ un) /\ o.acts # 0 THEN {"activated-though-refused"} ELSE {})
  \* C15: exactly the graph denoted
   \cup (IF bad \/ ~asked \/ (R.exe /\ ~un /\ o.exe # "ok") THEN {}
         ELSE IF ~func THEN {"graph-instances"}
         ELSE IF img # O THEN {"graph-streams"}
         ELSE IF \E p \in M : <<p[2], p[1][1]>> \notin cls THEN {"graph-classes"}
         ELSE IF \E j \in {j \in 1..n : ~Ill(j)} :
                                 \/ /\ ToSet(m.rs[j].src) \cup ToSet(m.rs[j].dst) \subseteq I
                                    /\ who(m.rs[j].src) # ToSet(o.stmts[j].src) \/ who(m.rs[j].dst) # ToSet(o.stmts[j].dst)
                                 \/ Len(m.rs[j].src) # Len(o.stmts[j].src) \/ Len(m.rs[j].dst) # Len(o.stmts[j].dst)
              THEN {"graph-endpoints"}
         \* the exported description lists the same
         ELSE IF ~({p[2] : p \in M} \subseteq ToSet(o.dotv)) \/ Cardinality(ToSet(o.dotv)) # Cardinality(g.inst) \/ Len(o.dotv) # Cardinality(g.inst) THEN {"dot-kernels"}
         ELSE IF Tuples(o.dote) # {<<Obj(e.src), e.sp, Obj(e.dst), e.dp, e.ooo>> : e \in {f \in g.edges : f.src \in rch}}
                 \/ Len(o.dote) # Cardinality({f \in g.edges : f.src \in rch})
              THEN {"dot-streams"}
         ELSE {})
  \* C10: the buffers asked for, whatever was refused since
   \cup (IF o.exe = "ok" /\ ~bad /\ asked /\ func
            /\ Tuples(o.caps) # {<<Obj(e.src), e.sp, Obj(e.dst), e.dp, IF e.cap = 0 THEN DefaultCap ELSE e.cap>> : e \in g.edges}
         THEN {"graph-buffer"} ELSE {})
  \* C19: identities and destruction
   \cup (IF Cardinality({x[2] : x \in Tuples(o.ids)}) # Len(o.ids) THEN {"ids"} ELSE {})
   \cup (IF o.early # <<>> THEN {"destroyed-early"} ELSE {})
   \cup (IF ToSet(o.late) # own \/ Len(o.late) # Cardinality(own) THEN {"destroyed"} ELSE {})

Init == i \in 1..Step
Next == i + Step <= Len(Results) /\ i' = i + Step
Spec == Init /\ [][Next]_i

Judge ==
  IF i <= Len(Results)
  THEN LET c == Complaints(Results[i]) IN IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i) \o " " \o ToString(c))
  ELSE TRUE
=============================================================================
