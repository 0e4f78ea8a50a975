-------------------------------- MODULE Canon --------------------------------
(***************************************************************************)
(* The program p = max {cx + z : Ax = b, x >= 0} seen from a basis B (a      *)
(* sequence of columns), by Cramer's rule: every entry of the canonical form *)
(* is an integer over the one denominator Den(p, B), the basis determinant   *)
(* (the common scale p.s of the data cancels in A and b).                    *)
(***************************************************************************)
EXTENDS LP, TLC

BMatrix(p, B) == Columns(p, B)
Replace(M, k, v) == [i \in DOMAIN M |-> [q \in DOMAIN M[i] |-> IF q = k THEN v[i] ELSE M[i][q]]]
SignOf(d) == IF d < 0 THEN -1 ELSE 1
Den(p, B) == RAbs(Det(BMatrix(p, B)))

(* [d, A, b]: the rows seen from the basis, by Cramer's rule ...                *)
ByCramer(p, B) ==
  LET M == BMatrix(p, B)
      d0 == Laplace(M)
      g == SignOf(d0)
  IN [d |-> g * d0, A |-> [k \in 1..p.m |-> [j \in 1..p.n |-> g * Laplace(Replace(M, k, Col(p, j)))]],
      b |-> [k \in 1..p.m |-> g * Laplace(Replace(M, k, p.b))]]
(* ... or by fraction-free pivots on the basis columns, which agrees (MCCanon)   *)
Pivoted(T, k, B) ==
  LET q == CHOOSE q \in k..Len(T) : T[q][B[k]] # 0 /\ \A u \in k..Len(T) : T[u][B[k]] # 0 => q <= u
      S == SwapRows(T, k, q)
      last == IF k = 1 THEN 1 ELSE T[k - 1][B[k - 1]]
  IN TLCEval([u \in DOMAIN T |-> IF u = k THEN S[u] ELSE [j \in DOMAIN T[u] |-> (S[k][B[k]] * S[u][j] - S[u][B[k]] * S[k][j]) \div last]])
ByPivots(p, B) ==
  LET T == FoldLeft(LAMBDA t, k : Pivoted(t, k, B), [u \in 1..p.m |-> Append(p.A[u], p.b[u])], [k \in 1..p.m |-> k])
      d == T[p.m][B[p.m]]
      g == SignOf(d)
  IN [d |-> g * d, A |-> [u \in 1..p.m |-> [j \in 1..p.n |-> g * T[u][j]]], b |-> [u \in 1..p.m |-> g * T[u][p.n + 1]]]

(* the whole view at once: [d, A, b, c, z] with A over d, b over d, c and z over d * s *)
View(p, B) ==
  LET rows == IF p.m <= 3 THEN ByCramer(p, B) ELSE ByPivots(p, B)
      CA == rows.A
      CB == rows.b
      RECURSIVE cBA(_, _)
      cBA(j, k) == IF k = 0 THEN 0 ELSE p.c[B[k]] * CA[k][j] + cBA(j, k - 1)
      RECURSIVE cBb(_)
      cBb(k) == IF k = 0 THEN 0 ELSE p.c[B[k]] * CB[k] + cBb(k - 1)
  IN [d |-> rows.d, A |-> CA, b |-> CB,
      c |-> [j \in 1..p.n |-> p.c[j] * rows.d - cBA(j, p.m)],
      z |-> p.z * rows.d + cBb(p.m)]

Ascending(B) == \A u, v \in DOMAIN B : u < v => B[u] < B[v]
Sorted(S) == LET RECURSIVE go(_)
                 go(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE a \in T : \A b \in T : a <= b IN <<m>> \o go(T \ {m})
             IN go(S)
FeasibleView(v) == \A k \in DOMAIN v.b : v.b[k] >= 0
(* the basic solution of B, over v.d *)
BasicX(p, B, v) == [k |-> "vec", den |-> v.d, num |-> [j \in 1..p.n |-> IF j \in SetOf(B) THEN v.b[CHOOSE k \in DOMAIN B : B[k] = j] ELSE 0]]

(* -- Bland's rule on the view ---------------------------------------------- *)
Improving(p, v) == {j \in 1..p.n : v.c[j] > 0}
Entering(p, v) == CHOOSE j \in Improving(p, v) : \A q \in Improving(p, v) : j <= q
RatioRows(p, v, e) == {k \in 1..p.m : v.A[k][e] > 0}
MinRows(p, v, e) == {k \in RatioRows(p, v, e) : \A q \in RatioRows(p, v, e) : RLe(v.b[k], v.A[k][e], v.b[q], v.A[q][e])}
Leaving(p, B, v, e) == LET S == {B[k] : k \in MinRows(p, v, e)} IN CHOOSE j \in S : \A q \in S : j <= q
IsOptimalView(p, v) == Improving(p, v) = {}
IsRayView(p, v) == ~IsOptimalView(p, v) /\ RatioRows(p, v, Entering(p, v)) = {}
Exchange(p, B, v) == LET e == Entering(p, v) IN Sorted((SetOf(B) \ {Leaving(p, B, v, e)}) \cup {e})
(* the dual solution of B: y with y A_B = c_B, by Cramer on the transpose; over v.d, y is scale free *)
DualOf(p, B) ==
  LET M == BMatrix(p, B)
      T == [i \in 1..p.m |-> [k \in 1..p.m |-> M[k][i]]]
      cB == [k \in 1..p.m |-> p.c[B[k]]]
      g == SignOf(Det(M))
  IN [k |-> "vec", den |-> RAbs(Det(M)), num |-> [k \in 1..p.m |-> g * Det(Replace(T, k, cB))]]
(* the ray of an unbounded view *)
RayOf(p, B, v) == LET e == Entering(p, v) IN
  [k |-> "vec", den |-> v.d, num |-> [j \in 1..p.n |-> IF j = e THEN v.d ELSE IF j \in SetOf(B) THEN -v.A[CHOOSE k \in DOMAIN B : B[k] = j][e] ELSE 0]]

(* -- an observed program q = [obj, rel, sgn, m, n, rows, cost] is the view --- *)
(* rows[i] is a vector of n + 1 numbers (coefficients and right-hand side),    *)
(* cost the n + 1 numbers of the objective and its constant; rows may come in   *)
(* the order of the basis as given or in ascending order.                      *)
RowIs(p, v, k, q) == /\ q.k = "vec" /\ Len(q.num) = p.n + 1
                     /\ \A j \in 1..p.n : Norm(q.num[j], q.den) = Norm(v.A[k][j], v.d)
                     /\ Norm(q.num[p.n + 1], q.den) = Norm(v.b[k], v.d)
CostIs(p, v, q) == /\ q.k = "vec" /\ Len(q.num) = p.n + 1
                   /\ \A j \in 1..p.n : Norm(q.num[j], q.den) = Norm(v.c[j], v.d * p.s)
                   /\ Norm(q.num[p.n + 1], q.den) = Norm(v.z, v.d * p.s)
FrameIs(p, o) == o.m = p.m /\ o.n = p.n /\ o.obj = "max" /\ (\A i \in 1..p.m : o.rel[i] = "=") /\ (\A j \in 1..p.n : o.sgn[j] = "+")
IsView(p, B, v, o) ==
  /\ FrameIs(p, o) /\ CostIs(p, v, o.cost)
  /\ \/ \A k \in 1..p.m : RowIs(p, v, k, o.rows[k])
     \/ LET S == Sorted(SetOf(B)) IN \A k \in 1..p.m : RowIs(p, v, CHOOSE u \in DOMAIN B : B[u] = S[k], o.rows[k])
=============================================================================
