------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* What constructing a linear program from arbitrary arguments has to yield.  *)
(* The arguments are a record a:                                              *)
(*   A = [k, v]  k: "matrix" (v its rows, possibly ragged), or what else it is  *)
(*   b, c = [k, v]  k: "vector" or what else it is                             *)
(*   z, obj                                                                   *)
(*   rel, free, neg = [k, v]  k: "none" (left out) or "list"                   *)
(* Numbers are opaque values (compared for identity only).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Relations == {"=", "<=", ">="}
Rectangular(M) == Len(M) > 0 /\ \A i \in DOMAIN M : Len(M[i]) = Len(M[1])
Cols(a) == Len(a.A.v[1])
Listed(x) == IF x.k = "none" THEN {} ELSE {x.v[u] : u \in DOMAIN x.v}
Once(x) == x.k = "list" => \A u, v \in DOMAIN x.v : u # v => x.v[u] # x.v[v]
WellFormed(a) ==
  /\ a.A.k = "matrix" /\ Rectangular(a.A.v)
  /\ a.b.k = "vector" /\ Len(a.b.v) = Len(a.A.v)
  /\ a.c.k = "vector" /\ Len(a.c.v) = Cols(a)
  /\ a.rel.k = "list" => Len(a.rel.v) = Len(a.A.v) /\ \A i \in DOMAIN a.rel.v : a.rel.v[i] \in Relations
  /\ a.obj \in {"max", "min"}
  /\ Once(a.free) /\ Once(a.neg)
  /\ Listed(a.free) \subseteq 1..Cols(a) /\ Listed(a.neg) \subseteq 1..Cols(a)
  /\ Listed(a.free) \cap Listed(a.neg) = {}
Built(a) ==
  [m |-> Len(a.A.v), n |-> Cols(a), A |-> a.A.v, b |-> a.b.v, c |-> a.c.v, z |-> a.z, obj |-> a.obj,
   rel |-> IF a.rel.k = "none" THEN [i \in DOMAIN a.A.v |-> "="] ELSE a.rel.v,
   sgn |-> [j \in 1..Cols(a) |-> IF j \in Listed(a.free) THEN "f" ELSE IF j \in Listed(a.neg) THEN "-" ELSE "+"]]
Standard(q) == q.obj = "max" /\ (\A i \in DOMAIN q.rel : q.rel[i] = "=") /\ (\A j \in DOMAIN q.sgn : q.sgn[j] = "+")
=============================================================================
