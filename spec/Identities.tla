---------------------------- MODULE Identities ----------------------------
(***************************************************************************)
(* Identities of kernels (C19): kernels come into being on several threads *)
(* at once, each gets an identity that no kernel had before.               *)
(*                                                                         *)
(* todo[t]  the kinds of kernels thread t makes: "own" (by the caller),    *)
(*          "place" (with ports on existing memory), "make" (the factory), *)
(*          "clone" (of the thread's first kernel)                         *)
(* used     identities given so far                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Kinds == {"own", "place", "make", "clone"}
MayGet(used, id) == id \notin used
Get(used, id) == used \cup {id}
Legal(p) == p = <<>> \/ p[1] # "clone"
=============================================================================
