------------------------------- MODULE MCCanon -------------------------------
(* Canonical forms of every small program for every basis: the identity on   *)
(* the basis, zero cost on it, the same solutions and the same value on a     *)
(* grid of points.                                                            *)
EXTENDS Canon
CONSTANTS M, N, Neg, Pos, G
Vals == -Neg..Pos
Grid == -1..G
VARIABLES p, B, ph
Prog(A, b, c, z) == [m |-> M, n |-> N, s |-> 1, A |-> A, b |-> b, c |-> c, z |-> z, obj |-> "max", rel |-> [i \in 1..M |-> "="], sgn |-> [j \in 1..N |-> "+"]]
Init == /\ \E A \in [1..M -> [1..N -> Vals]], b \in [1..M -> Vals], c \in [1..N -> Vals] : p = Prog(A, b, c, 1)
        /\ B \in {S \in [1..M -> 1..N] : Distinct(S)} /\ Det(BMatrix(p, B)) # 0 /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<p, B>>
Spec == Init /\ [][Next]_<<p, B, ph>>
Vec(x) == [k |-> "vec", num |-> x, den |-> 1]
Shape(v) == /\ \A k, q \in 1..M : v.A[k][B[q]] = IF k = q THEN v.d ELSE 0
            /\ \A q \in 1..M : v.c[B[q]] = 0
Same(v) == \A x \in [1..N -> Grid] :
  /\ RowsHold(p, Vec(x)) <=> (\A k \in 1..M : Dot(v.A[k], x) = v.b[k])
  /\ RowsHold(p, Vec(x)) => Value(p, Vec(x)) = Norm(Dot(v.c, x) + v.z, v.d)
Basic(v) == IsBasicSolution(p, BasicX(p, B, v), B) /\ Value(p, BasicX(p, B, v)) = Norm(v.z, v.d)
Dual == LET y == DualOf(p, B) IN \A k \in 1..M : YA(p, y, B[k]) = p.c[B[k]] * y.den
Agree == ByCramer(p, B) = ByPivots(p, B)
Safe == ph = 1 => Agree /\ (LET v == View(p, B) IN Shape(v) /\ Same(v) /\ Basic(v)) /\ Dual
=============================================================================
