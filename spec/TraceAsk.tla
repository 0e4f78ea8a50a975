------------------------------ MODULE TraceAsk ------------------------------
(* L07 / L08: recorded answers of verifiers and predicates.  Record: p and a  *)
(* list "as" of questions [f, x, y, B, k, v, o, bad]:                              *)
(*   k = "ok" | "exc", v the boolean answer (0 / 1), o a returned vector;     *)
(*   bad # "" says that x was passed in another shape (matrix, text, scalar);  *)
(*   same = program unchanged afterwards.                                     *)
EXTENDS Predicates, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)

Says(a, e) == a.k = "ok" /\ a.v = (IF e THEN 1 ELSE 0)
NeverYes(a) == a.k = "exc" \/ (a.k = "ok" /\ a.v = 0)
Refused(a) == a.k = "exc"
ValueIs(p, a) == a.k = "ok" /\ a.o.k = "vec" /\ a.o.den > 0 /\ Len(a.o.num) = 1 /\ Norm(a.o.num[1], a.o.den) = Value(p, a.x)

(* the point is a vector of the program's size, given as a list or array of numbers *)
Shaped(p, a) == a.bad = "" /\ Len(a.x.num) = p.n
Answered(p, a) ==
  CASE a.f = "inf" -> IF IsSef(p) THEN Says(a, AcceptsInfeasible(p, a.y)) ELSE Refused(a)
    [] a.f = "unb" -> IF IsSef(p) THEN Says(a, AcceptsUnbounded(p, a.x, a.y)) ELSE Refused(a)
    [] a.f = "opt" -> IF IsSef(p) THEN Says(a, AcceptsOptimal(p, a.y)) ELSE Refused(a)
    [] a.f = "feasible" -> IF Shaped(p, a) THEN Says(a, Feasible(p, a.x)) ELSE Refused(a)
    [] a.f = "evaluate" -> IF Shaped(p, a) THEN ValueIs(p, a) ELSE Refused(a)
    [] a.f = "value_of" -> IF Shaped(p, a) /\ Feasible(p, a.x) THEN ValueIs(p, a) ELSE Refused(a)
    [] a.f = "optimal" -> IF Shaped(p, a) THEN Says(a, IsOptimal(p, a.x, a.w)) ELSE Refused(a)
    [] a.f = "basis" -> Says(a, IsBasis(p, a.B))
    [] a.f = "solution" -> IF IsBasis(p, a.B) THEN a.k = "ok" /\ IsVec(a.o, p.n) /\ IsBasicSolution(p, a.o, a.B) ELSE Refused(a)
    [] a.f = "basic" -> IF ~IsSef(p) \/ ~Shaped(p, a) THEN Refused(a) ELSE IF IsBasis(p, a.B) THEN Says(a, BasicFor(p, a.x, a.B)) ELSE NeverYes(a)
    [] a.f = "feasible_basis" -> IF IsBasis(p, a.B) THEN Says(a, IsFeasibleBasis(p, a.y, a.B)) ELSE NeverYes(a)
    [] a.f = "feasible_basic" -> IF ~Shaped(p, a) THEN Refused(a) ELSE IF IsBasis(p, a.B) THEN Says(a, FeasibleBasicFor(p, a.x, a.B)) ELSE NeverYes(a)
(* "feasible_basis" carries the basic solution of B as y; it is checked here *)
Sound(p, a) ==
  /\ a.f = "optimal" => Witnesses(p, a.w)
  /\ a.f = "feasible_basis" /\ IsBasis(p, a.B) => IsVec(a.y, p.n) /\ IsBasicSolution(p, a.y, a.B)

Failing(r) ==
  {r.as[q].f : q \in {q \in DOMAIN r.as : ~Answered(r.p, r.as[q])}}
  \cup (IF \A q \in DOMAIN r.as : Sound(r.p, r.as[q]) THEN {} ELSE {"no-witness"})
  \cup (IF r.same = 1 THEN {} ELSE {"altered"})
INSTANCE OneStep
=============================================================================
