-------------------------------- MODULE Rat --------------------------------
(* Exact rationals n/d (d > 0) without ever multiplying denominators, so    *)
(* that TLC's 32-bit integers suffice.                                      *)
EXTENDS Integers, Sequences

RAbs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET g == Gcd(RAbs(n), d) IN IF g = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
REq(n1, d1, n2, d2) == Norm(n1, d1) = Norm(n2, d2)
(* n1/d1 < n2/d2 by comparing continued fractions *)
RECURSIVE RLt(_, _, _, _)
RLt(n1, d1, n2, d2) ==
  LET q1 == n1 \div d1  q2 == n2 \div d2
      r1 == n1 % d1     r2 == n2 % d2
  IN IF q1 # q2 THEN q1 < q2
     ELSE IF r2 = 0 THEN FALSE
     ELSE IF r1 = 0 THEN TRUE
     ELSE RLt(d2, r2, d1, r1)
RLe(n1, d1, n2, d2) == ~RLt(n2, d2, n1, d1)

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))
RECURSIVE DotTo(_, _, _)
DotTo(u, v, k) == IF k = 0 THEN 0 ELSE u[k] * v[k] + DotTo(u, v, k - 1)
Dot(u, v) == DotTo(u, v, Len(u))
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
=============================================================================
