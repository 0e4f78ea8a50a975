------------------------------- MODULE Polygon -------------------------------
(***************************************************************************)
(* The plane picture of a program with two variables: the feasible region cut   *)
(* to the square of half-width g, its vertices and their cyclic order.          *)
(* A half-plane is <<a1, a2, rel, t>> over p.s (which cancels); a point <<x, y, d>> is (x/d, y/d).*)
EXTENDS LP, TLC
Halves(p, g) ==
  {<<p.A[i][1], p.A[i][2], p.rel[i], p.b[i]>> : i \in 1..p.m}
  \cup {<<1, 0, "<=", g>>, <<1, 0, ">=", -g>>, <<0, 1, "<=", g>>, <<0, 1, ">=", -g>>}
  \cup {<<(IF j = 1 THEN 1 ELSE 0), (IF j = 2 THEN 1 ELSE 0), RelOfSign(p.sgn[j]), 0>> : j \in {j \in 1..2 : p.sgn[j] # "f"}}
In(h, v) == RelHolds(h[3], h[1] * v[1] + h[2] * v[2], h[4] * v[3])
Tight(h, v) == (h[1] # 0 \/ h[2] # 0) /\ h[1] * v[1] + h[2] * v[2] = h[4] * v[3]
Within(H, v) == \A h \in H : In(h, v)
Meet(h, k) ==      \* the crossing of two boundary lines
  LET d == h[1] * k[2] - h[2] * k[1]
      e == IF d < 0 THEN -1 ELSE 1
      x == e * (h[4] * k[2] - h[2] * k[4])
      y == e * (h[1] * k[4] - h[4] * k[1])
      f == Gcd(Gcd(RAbs(x), RAbs(y)), RAbs(d))
  IN IF d = 0 THEN <<>> ELSE <<x \div f, y \div f, RAbs(d) \div f>>
Corners(H) == {v \in {Meet(h, k) : h, k \in H} \ {<<>>} : Within(H, v)}
Joined(H, u, v) == \E h \in H : Tight(h, u) /\ Tight(h, v)
(* a closed walk along the boundary that turns at every vertex exactly once *)
Boundary(H, w) ==
  LET V == Corners(H) IN
  /\ Len(w) = Cardinality(V) /\ {w[q] : q \in DOMAIN w} = V
  /\ \A q \in DOMAIN w : Joined(H, w[q], w[(q % Len(w)) + 1]) \/ Len(w) = 1
=============================================================================
