------------------------------ MODULE MCPolygon ------------------------------
(* Every small region in the plane: its corners are exactly the points that are *)
(* not between two others of the region, every corner of a region with inner      *)
(* points has exactly two neighbours, the boundary is one cycle, and the region    *)
(* is empty exactly when it has no corner.                                        *)
EXTENDS Polygon
CONSTANTS M, G, Neg, Pos, Rels, Signs
Vals == (-Neg)..Pos
VARIABLES p, ph
Init == /\ ph = 0
        /\ \E A \in [1..M -> [1..2 -> Vals]], b \in [1..M -> Vals], r \in Rels, g \in [1..2 -> Signs] :
             p = [m |-> M, n |-> 2, s |-> 1, A |-> A, b |-> b, rel |-> [i \in 1..M |-> r], sgn |-> g]
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, ph>>
D == 2                                   \* the grid of halves
Grid == {<<x, y, D>> : x \in (-D * G)..(D * G), y \in (-D * G)..(D * G)}
H == Halves(p, G)
V == Corners(H)
On(v) == <<v[1] * (D \div v[3]), v[2] * (D \div v[3]), D>>
Even == {v \in V : v[3] \in {1, 2}}
Inside == {v \in Grid : Within(H, v)}
Mid(u, v, w) == 2 * w[1] = u[1] + v[1] /\ 2 * w[2] = u[2] + v[2]
Same(u, v) == u[1] * v[3] = v[1] * u[3] /\ u[2] * v[3] = v[2] * u[3]
Extreme == \A v \in Even : ~\E u, w \in Inside : u # w /\ Mid(u, w, On(v))
Nonempty == Inside # {} => V # {}
(* a corner never lies on a segment between two others *)
Cross(a, b, c) == (b[1] * a[3] - a[1] * b[3]) * (c[2] * a[3] - a[2] * c[3]) - (b[2] * a[3] - a[2] * b[3]) * (c[1] * a[3] - a[1] * c[3])
Solid == \E a, b, c \in V : Cross(a, b, c) # 0
Degree(v) == Cardinality({u \in V : u # v /\ Joined(H, u, v)})
Cycle == Solid => (/\ \A v \in V : Degree(v) = 2
                   /\ \A S \in SUBSET V : (S # {} /\ \A u \in S, v \in V : (u # v /\ Joined(H, u, v)) => v \in S) => S = V)
Flat == ~Solid => Cardinality(V) <= 2
(* corners hull everything: no point of the region is beyond a line through two neighbours *)
Hull == Solid => \A u, v \in V : (u # v /\ Joined(H, u, v)) =>
          LET side == {IF Cross(u, v, w) > 0 THEN 1 ELSE IF Cross(u, v, w) < 0 THEN -1 ELSE 0 : w \in V \cup Inside} IN ~({1, -1} \subseteq side)
Safe == ph = 1 => Extreme /\ Nonempty /\ Cycle /\ Flat /\ Hull
=============================================================================
