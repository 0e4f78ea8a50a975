----------------------------- MODULE MCTransform -----------------------------
(* Every small program, every point of a grid on either side: the standard   *)
(* form has the same feasible points with the right values, weak duality      *)
(* holds, optimality proofs transfer, certificates exclude one another.       *)
EXTENDS Transform
CONSTANTS M, N, Neg, Pos, G, Rels, Signs
Vals == -Neg..Pos
Grid == -G..G
VARIABLES p, ph
Init == /\ \E A \in [1..M -> [1..N -> Vals]], b \in [1..M -> Vals], c \in [1..N -> Vals], o \in {"max", "min"}, r \in [1..M -> Rels], g \in [1..N -> Signs] :
             p = [m |-> M, n |-> N, s |-> 1, A |-> A, b |-> b, c |-> c, z |-> 1, obj |-> o, rel |-> r, sgn |-> g]
        /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, ph>>
Vec(x) == [k |-> "vec", num |-> x, den |-> 1]
Points(q) == {Vec(x) : x \in [1..q.n -> Grid]}
Near(q) == {Vec(x) : x \in [1..q.n -> 0..G]}
SefSame == LET q == Sef(p)  g == IF p.obj = "max" THEN 1 ELSE -1 IN
  /\ IsSef(q) /\ Sef(q) = q /\ q.z = p.z /\ q.b = p.b
  /\ \A x \in Points(p) : LET y == Image(p, x) IN (Feasible(p, x) <=> Feasible(q, y)) /\ Back(p, y) = x /\ Dot(q.c, y.num) = g * Dot(p.c, x.num)
  /\ \A y \in Near(q) : Feasible(q, y) => Feasible(p, Back(p, y)) /\ Dot(q.c, y.num) = g * Dot(p.c, Back(p, y).num)
Better(q, x, y) == IF q.obj = "max" THEN Dot(q.c, x.num) > Dot(q.c, y.num) ELSE Dot(q.c, x.num) < Dot(q.c, y.num)
DualRight == LET d == Dual(p)  X == {x \in Points(p) : Feasible(p, x)}  Y == {y \in Points(d) : Feasible(d, y)} IN
  /\ Dual(d) = [p EXCEPT !.z = 0]
  /\ \A x \in X, y \in Y : IF p.obj = "max" THEN Dot(p.c, x.num) <= Dot(d.c, y.num) ELSE Dot(p.c, x.num) >= Dot(d.c, y.num)
  /\ \A y \in Points(d) : DualFeasible(p, y) <=> Feasible(d, y)
  /\ \A x \in X, y \in Y : ProvesOptimal(p, x, y) <=> ProvesOptimal(d, y, x)
  /\ \A x \in X, y \in Y : ProvesOptimal(p, x, y) => \A u \in X : ~Better(p, u, x)
Exclusive == LET X == {x \in Points(p) : Feasible(p, x)} IN
  /\ \A y \in {Vec(z) : z \in [1..p.m -> Grid]} : ProvesInfeasible(p, y) => X = {}
  /\ \A x \in X, d \in Points(p) : ProvesUnbounded(p, x, d) =>
       /\ \A k \in 1..3 : LET u == Vec([j \in 1..p.n |-> x.num[j] + k * d.num[j]]) IN Feasible(p, u) /\ Better(p, u, x)
       /\ \A y \in Points(Dual(p)) : ~DualFeasible(p, y)
Edits == \A x \in Points(p) :
  /\ \A a \in [1..N -> {0, 1}], r \in Rels, t \in {0, 1} : Feasible(WithRow(p, a, r, t), x) <=> (Feasible(p, x) /\ RelHolds(r, Dot(a, x.num), t))
  /\ \A v \in Grid, g \in Signs : LET q == WithVar(p, 1, [i \in 1..M |-> 1], g)  u == Vec(Append(x.num, v)) IN
       /\ SignsHold(q, u) <=> (SignsHold(p, x) /\ SignOk(g, v))
       /\ Dot(q.c, u.num) = Dot(p.c, x.num) + v
       /\ \A i \in 1..M : Dot(q.A[i], u.num) = Dot(p.A[i], x.num) + v
Safe == ph = 1 => SefSame /\ DualRight /\ Exclusive /\ Edits
=============================================================================
