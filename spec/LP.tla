--------------------------------- MODULE LP ---------------------------------
(***************************************************************************)
(* Linear programs and what is true of them.                               *)
(* A program p:  m, n      rows and columns                                *)
(*               A, b, c, z integers; the real datum is integer / p.s      *)
(*               obj       "max" | "min"                                   *)
(*               rel[i]    "=" | "<=" | ">="                               *)
(*               sgn[j]    "+" (>= 0) | "-" (<= 0) | "f" (free)            *)
(* A vector v is v.num (integers) over one denominator v.den > 0.          *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Sequences, SequencesExt, TLC

IsVec(v, n) == v.k = "vec" /\ Len(v.num) = n /\ v.den > 0
Row(p, i) == p.A[i]
Col(p, j) == [i \in 1..p.m |-> p.A[i][j]]

RelHolds(r, l, t) == CASE r = "=" -> l = t [] r = "<=" -> l <= t [] r = ">=" -> l >= t
SignOk(s, x) == CASE s = "+" -> x >= 0 [] s = "-" -> x <= 0 [] s = "f" -> TRUE

RowsHold(p, x) == \A i \in 1..p.m : RelHolds(p.rel[i], Dot(p.A[i], x.num), p.b[i] * x.den)
SignsHold(p, x) == \A j \in 1..p.n : SignOk(p.sgn[j], x.num[j])
Feasible(p, x) == RowsHold(p, x) /\ SignsHold(p, x)

(* linear part and full objective, as normalised rationals *)
Lin(p, x) == Norm(Dot(p.c, x.num), p.s * x.den)
Value(p, x) == Norm(Dot(p.c, x.num) + p.z * x.den, p.s * x.den)
(* y b for a row vector y (y real, b = integers / s) *)
YB(p, y) == Norm(Dot(y.num, p.b), p.s * y.den)
YA(p, y, j) == Dot(y.num, Col(p, j))                     \* over s * den

IsSef(p) == p.obj = "max" /\ (\A i \in 1..p.m : p.rel[i] = "=") /\ (\A j \in 1..p.n : p.sgn[j] = "+")

(* -- certificates for arbitrary programs --------------------------------- *)
Flip(r) == CASE r = "<=" -> ">=" [] r = ">=" -> "<=" [] r = "=" -> "="
(* sign a multiplier of a row may have when rows are combined into an upper bound *)
UpSign(r) == CASE r = "<=" -> "+" [] r = ">=" -> "-" [] r = "=" -> "f"
DownSign(r) == CASE r = "<=" -> "-" [] r = ">=" -> "+" [] r = "=" -> "f"
RelOfSign(s) == CASE s = "+" -> ">=" [] s = "-" -> "<=" [] s = "f" -> "="

DualFeasible(p, y) ==
  /\ \A i \in 1..p.m : SignOk(IF p.obj = "max" THEN UpSign(p.rel[i]) ELSE DownSign(p.rel[i]), y.num[i])
  /\ \A j \in 1..p.n :
       LET r == IF p.obj = "max" THEN RelOfSign(p.sgn[j]) ELSE Flip(RelOfSign(p.sgn[j]))
       IN RelHolds(r, YA(p, y, j), p.c[j] * y.den)
ProvesOptimal(p, x, y) == Feasible(p, x) /\ DualFeasible(p, y) /\ Lin(p, x) = YB(p, y)
ProvesInfeasible(p, y) ==
  /\ \A i \in 1..p.m : SignOk(UpSign(p.rel[i]), y.num[i])
  /\ \A j \in 1..p.n : RelHolds(RelOfSign(p.sgn[j]), YA(p, y, j), 0)
  /\ Dot(y.num, p.b) < 0
ProvesUnbounded(p, x, d) ==
  /\ Feasible(p, x)
  /\ \A i \in 1..p.m : RelHolds(p.rel[i], Dot(p.A[i], d.num), 0)
  /\ \A j \in 1..p.n : SignOk(p.sgn[j], d.num[j])
  /\ IF p.obj = "max" THEN Dot(p.c, d.num) > 0 ELSE Dot(p.c, d.num) < 0

(* A witness w = [kind, x, y] of the truth about p; the specification checks *)
(* it and never trusts it.                                                   *)
Witnesses(p, w) ==
  CASE w.kind = "optimal"    -> IsVec(w.x, p.n) /\ IsVec(w.y, p.m) /\ ProvesOptimal(p, w.x, w.y)
    [] w.kind = "infeasible" -> IsVec(w.y, p.m) /\ ProvesInfeasible(p, w.y)
    [] w.kind = "unbounded"  -> IsVec(w.x, p.n) /\ IsVec(w.y, p.n) /\ ProvesUnbounded(p, w.x, w.y)
    [] OTHER -> FALSE
OptimalValue(p, w) == Value(p, w.x)

(* -- linear algebra -------------------------------------------------------- *)
(* determinants: by definition (Laplace) for small matrices, by fraction-free   *)
(* elimination (Bareiss) for larger ones; MCCanon checks that the two agree      *)
RECURSIVE Laplace(_)
Minor(M, j) == [i \in 1..(Len(M) - 1) |-> [k \in 1..(Len(M) - 1) |-> M[i + 1][IF k < j THEN k ELSE k + 1]]]
Laplace(M) ==
  IF Len(M) = 0 THEN 1
  ELSE IF Len(M) = 1 THEN M[1][1]
  ELSE LET RECURSIVE Ex(_)
           Ex(j) == IF j = 0 THEN 0
                    ELSE (IF M[1][j] = 0 THEN 0
                          ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Laplace(Minor(M, j))) + Ex(j - 1)
       IN Ex(Len(M))
SwapRows(T, k, q) == [T EXCEPT ![k] = T[q], ![q] = T[k]]
(* t = [ok, g, T]: T with its first columns eliminated, g the sign of the row swaps *)
Eliminated(t, k) ==
  LET T == t.T  R == {q \in k..Len(T) : T[q][k] # 0} IN
  IF ~t.ok \/ R = {} THEN [t EXCEPT !.ok = FALSE]
  ELSE LET q == CHOOSE q \in R : \A u \in R : q <= u
           S == SwapRows(T, k, q)
           last == IF k = 1 THEN 1 ELSE T[k - 1][k - 1]
       IN [ok |-> TRUE, g |-> IF q = k THEN t.g ELSE -t.g,
           T |-> TLCEval([u \in DOMAIN T |-> IF u <= k THEN S[u] ELSE [j \in DOMAIN T |-> IF j <= k THEN 0 ELSE (S[k][k] * S[u][j] - S[u][k] * S[k][j]) \div last]])]
Bareiss(M) ==
  LET t == FoldLeft(Eliminated, [ok |-> TRUE, g |-> 1, T |-> M], [k \in DOMAIN M |-> k]) IN
  IF t.ok THEN t.g * t.T[Len(M)][Len(M)] ELSE 0
Det(M) == IF Len(M) <= 3 THEN Laplace(M) ELSE Bareiss(M)
Columns(p, B) == [i \in 1..p.m |-> [k \in 1..Len(B) |-> p.A[i][B[k]]]]
Distinct(B) == \A u, v \in DOMAIN B : u # v => B[u] # B[v]
InRange(p, B) == \A u \in DOMAIN B : B[u] \in 1..p.n
IsBasis(p, B) == Len(B) = p.m /\ InRange(p, B) /\ Distinct(B) /\ Det(Columns(p, B)) # 0
SetOf(B) == {B[u] : u \in DOMAIN B}

(* x is the basic solution of basis B: rows hold with equality, zero outside *)
IsBasicSolution(p, x, B) ==
  /\ \A i \in 1..p.m : Dot(p.A[i], x.num) = p.b[i] * x.den
  /\ \A j \in 1..p.n : j \notin SetOf(B) => x.num[j] = 0
IsFeasibleBasis(p, x, B) == IsBasicSolution(p, x, B) /\ \A j \in 1..p.n : x.num[j] >= 0
=============================================================================
