----------------------------- MODULE MCConstruct -----------------------------
(* Every accepted argument list denotes one program whose variables are split  *)
(* into three disjoint sets; every rejection has a nameable reason.            *)
EXTENDS Construct, TLC
CONSTANTS N
VARIABLES a, ph
Seqs(S, k) == UNION {[1..q -> S] : q \in 0..k}
Init == ph = 0 /\ a \in [A : [k : {"matrix", "other"}, v : {<<>>} \cup Seqs(Seqs({5}, N), 2)], b : [k : {"vector", "other"}, v : Seqs({6}, 2)], c : [k : {"vector"}, v : Seqs({7}, N)],
                z : {0}, obj : {"max", "min", "Max"}, rel : {[k |-> "none", v |-> <<>>]}, free : {[k |-> "none", v |-> <<>>]}, neg : {[k |-> "none", v |-> <<>>]}]
Next == /\ ph = 0 /\ ph' = 1
        /\ \E r \in {[k |-> "none", v |-> <<>>]} \cup [k : {"list"}, v : Seqs({"=", "<=", "<"}, 2)],
              f, g \in {[k |-> "none", v |-> <<>>]} \cup [k : {"list"}, v : Seqs(0..(N + 1), 2)] : a' = [a EXCEPT !.rel = r, !.free = f, !.neg = g]
Safe == ph = 1 =>
  /\ WellFormed(a) => LET q == Built(a) IN
       /\ q.m = Len(a.b.v) /\ q.n = Len(a.c.v) /\ Len(q.rel) = q.m /\ Len(q.sgn) = q.n
       /\ {j \in 1..q.n : q.sgn[j] = "f"} = Listed(a.free) /\ {j \in 1..q.n : q.sgn[j] = "-"} = Listed(a.neg)
       /\ Standard(q) <=> (a.obj = "max" /\ Listed(a.free) = {} /\ Listed(a.neg) = {} /\ Listed(a.rel) \subseteq {"="})
  /\ ~WellFormed(a) =>
       \/ a.A.k # "matrix" \/ a.A.v = <<>> \/ (\E i, j \in DOMAIN a.A.v : Len(a.A.v[i]) # Len(a.A.v[j]))
       \/ a.b.k # "vector" \/ Len(a.b.v) # Len(a.A.v) \/ Len(a.c.v) # Len(a.A.v[1])
       \/ a.obj \notin {"max", "min"} \/ (a.rel.k = "list" /\ (Len(a.rel.v) # Len(a.A.v) \/ \E i \in DOMAIN a.rel.v : a.rel.v[i] \notin Relations))
       \/ (\E j \in Listed(a.free) \cup Listed(a.neg) : j < 1 \/ j > Len(a.c.v)) \/ Listed(a.free) \cap Listed(a.neg) # {}
       \/ Cardinality(Listed(a.free)) < Len(a.free.v) \/ Cardinality(Listed(a.neg)) < Len(a.neg.v)
=============================================================================
