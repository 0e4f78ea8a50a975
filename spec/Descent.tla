------------------------------ MODULE Descent -------------------------------
(* Steepest descent with backtracking, and Newton's method, on a quadratic   *)
(* f(x) = x'Qx/2 + q'x with integer Q (symmetric) and q.  A problem r has n, *)
(* Q, q, sg (1: min and Q positive definite, -1: max and Q negative          *)
(* definite), al (first step length, al[1] / al[2]), pd (steps shrink by      *)
(* 1/pd), c (c[1] / c[2]).  Points are integers over one scale sc.           *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumD(_, _, _)
SumD(u, v, k) == IF k = 0 THEN 0 ELSE u[k] * v[k] + SumD(u, v, k - 1)
D(u, v) == SumD(u, v, Len(u))
Grad(r, sc, x) == [j \in 1..r.n |-> D(r.Q[j], x) + r.q[j] * sc]                 \* over sc
Bend(r, g) == D(g, [j \in 1..r.n |-> D(r.Q[j], g)])                             \* g'Qg over sc^2

(* 2 sc^2 f(x) *)
F2(r, sc, x) == D(x, [j \in 1..r.n |-> D(r.Q[j], x)]) + 2 * sc * D(r.q, x)

(* the step of length an/ad along the negative gradient (gradient, for max) decreases the objective enough:
   sg f(x + a d) <= sg f(x) - c a d'd   with d = -sg g *)
Enough(r, g, an, ad) == r.sg * an * Bend(r, g) * r.c[2] <= 2 * (r.c[2] - r.c[1]) * D(g, g) * ad
(* denominator of the first length of the sequence al, al/pd, al/pd^2, ... that does *)
RECURSIVE Shrink(_, _, _)
Shrink(r, g, ad) == IF Enough(r, g, r.al[1], ad) THEN ad ELSE Shrink(r, g, ad * r.pd)
Length(r, g) == Shrink(r, g, r.al[2])
(* y is the next point *)
Steps(r, sc, x, y) ==
  LET g == Grad(r, sc, x)  ad == Length(r, g)
  IN \A j \in 1..r.n : (y[j] - x[j]) * ad = -r.sg * r.al[1] * g[j]

(* the gradient's norm is at most tol[1]/tol[2] *)
Within(r, sc, x, tol) == LET g == Grad(r, sc, x) IN D(g, g) * tol[2] * tol[2] <= tol[1] * tol[1] * sc * sc

(* Functions that are not quadratic enter through tables of comparisons (1: holds, 0: fails, 2: too close to tell). *)
(* A step is the first of the candidate lengths whose decrease is sufficient: ok[e] tells whether that of the e-th   *)
(* is; fits are the lengths that lead to the point reached.                                                      *)
Chosen(ok, fits) == \E e \in fits : e \in DOMAIN ok /\ ok[e] # 0 /\ \A d \in 1..(e - 1) : ok[d] # 1
(* near[j]: the j-th point (1 is the start) is within tolerance; at: the points that were returned *)
Stopped(near, at) ==
  LET First(j) == (j = Len(near) \/ near[j] # 0) /\ (\A d \in 2..(j - 1) : near[d] # 1)
  IN (\E j \in at : (j > 1 \/ Len(near) = 1) /\ First(j)) \/ (1 \in at /\ near[1] # 0)
=============================================================================
