----------------------------- MODULE UnionFind -----------------------------
(***************************************************************************)
(* The implementation's algorithm: a parent forest with union by rank and  *)
(* path compression (two-pass, as the recursive find does).  TLC checks    *)
(* that it refines DisjointSet and keeps its own invariants.               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N, MaxOps
VARIABLES parent, rank, revealed, known, ops

Items == 1..N
vars == <<parent, rank, revealed, known, ops>>

RECURSIVE Root(_, _)
Root(p, x) == IF p[x] = x THEN x ELSE Root(p, p[x])
RECURSIVE PathOf(_, _)
PathOf(p, x) == IF p[x] = x THEN {x} ELSE {x} \cup PathOf(p, p[x])
Compress(p, x) == [y \in Items |-> IF y \in PathOf(p, x) THEN Root(p, x) ELSE p[y]]

(* known: the groups asked for so far, by history (the specification's own  *)
(* bookkeeping); revealed: representatives returned since the last union.   *)
Init == /\ parent = [x \in Items |-> x] /\ rank = [x \in Items |-> 0]
        /\ known = [x \in Items |-> {x}] /\ revealed = [x \in Items |-> 0] /\ ops = 0

Find(x) ==
  /\ parent' = Compress(parent, x)
  /\ revealed' = [y \in Items |-> IF y \in known[x] THEN Root(parent, x) ELSE revealed[y]]
  /\ UNCHANGED <<rank, known>>

Union(a, b) ==
  LET p1 == Compress(Compress(parent, a), b)
      ra == Root(p1, a)
      rb == Root(p1, b)
      g  == known[a] \cup known[b]
  IN /\ known' = [y \in Items |-> IF y \in g THEN g ELSE known[y]]
     /\ revealed' = [y \in Items |-> IF y \in g THEN 0 ELSE revealed[y]]
     /\ IF ra = rb THEN parent' = p1 /\ rank' = rank
        ELSE IF rank[ra] < rank[rb] THEN parent' = [p1 EXCEPT ![ra] = rb] /\ rank' = rank
        ELSE /\ parent' = [p1 EXCEPT ![rb] = ra]
             /\ rank' = IF rank[ra] > rank[rb] THEN rank ELSE [rank EXCEPT ![ra] = @ + 1]

Next == ops < MaxOps /\ ops' = ops + 1 /\ (\/ \E x \in Items : Find(x) \/ \E a, b \in Items : Union(a, b))
Spec == Init /\ [][Next]_vars

Abs == INSTANCE DisjointSet WITH items <- Items, group <- known, rep <- revealed, alive <- TRUE
AbsNext == \/ \E x \in Items, r \in Items : Abs!Find(x, Abs!Ok(r))
           \/ \E a, b \in Items : Abs!Union(a, b, Abs!Ok(0))
Refines == [][AbsNext]_<<known, revealed>>

Faithful == \A x, y \in Items : (Root(parent, x) = Root(parent, y)) <=> (known[x] = known[y])
RankGrows == \A x \in Items : parent[x] # x => rank[x] < rank[parent[x]]
SizeBound == \A x \in Items : Cardinality({y \in Items : Root(parent, y) = x}) >= (IF parent[x] = x THEN 2 ^ rank[x] ELSE 0)
AbsInv == Abs!IsPartition /\ Abs!OneRepresentative /\ Abs!RepresentativeInGroup
=============================================================================
