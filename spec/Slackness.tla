------------------------------ MODULE Slackness ------------------------------
(***************************************************************************)
(* Complementary slackness: for every inequality row its multiplier is zero   *)
(* or the row is tight; for every sign-restricted variable it is zero or its   *)
(* dual row is tight.  A condition is [k |-> "row" | "var", i, a, t]: the      *)
(* multiplier y_i (or x_i) is 0, or a . x = t (or a . y = t), data over p.s.   *)
EXTENDS Transform
Conditions(p) ==
  {[k |-> "row", i |-> i, a |-> p.A[i], t |-> p.b[i]] : i \in {i \in 1..p.m : p.rel[i] # "="}}
  \cup LET d == Dual(p) IN {[k |-> "var", i |-> j, a |-> d.A[j], t |-> d.b[j]] : j \in {j \in 1..p.n : p.sgn[j] # "f"}}
Holds(c, x, y) ==
  IF c.k = "row" THEN y.num[c.i] = 0 \/ Dot(c.a, x.num) = c.t * x.den
  ELSE x.num[c.i] = 0 \/ Dot(c.a, y.num) = c.t * y.den
=============================================================================
