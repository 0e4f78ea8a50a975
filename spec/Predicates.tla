----------------------------- MODULE Predicates -----------------------------
(* What the certificate verifiers and the feasibility, value and basis        *)
(* predicates have to answer.  The verifiers are for programs in standard     *)
(* equality form only.                                                        *)
EXTENDS LP

AcceptsInfeasible(p, y) == (\A j \in 1..p.n : YA(p, y, j) >= 0) /\ Dot(y.num, p.b) < 0
AcceptsUnbounded(p, x, d) ==
  /\ Feasible(p, x)
  /\ \A j \in 1..p.n : d.num[j] >= 0
  /\ \A i \in 1..p.m : Dot(p.A[i], d.num) = 0
  /\ Dot(p.c, d.num) > 0
AcceptsOptimal(p, y) == \A j \in 1..p.n : YA(p, y, j) >= p.c[j] * y.den

(* x attains the best value, given a witness w of the truth about p *)
IsOptimal(p, x, w) == Feasible(p, x) /\ w.kind = "optimal" /\ Lin(p, x) = Lin(p, w.x)

(* basis predicates for any list of column indices *)
BasicFor(p, x, B) == IsBasis(p, B) /\ IsBasicSolution(p, x, B)
FeasibleBasicFor(p, x, B) == IsBasis(p, B) /\ IsFeasibleBasis(p, x, B)
=============================================================================
