----------------------------- MODULE TraceSolve -----------------------------
(* L01 / L02: recorded solver outcomes.  Record: f, p, w (a witness of the    *)
(* truth about p, checked here), and                                          *)
(*   f = "solve": k, x; vk, v (optimal_value as <<kind, num, den>>)            *)
(*   f = "two":   k, x, hb, nb (basis), y, d (certificates), ver (answer of    *)
(*                the library's own verifier)                                  *)
(* same: program unchanged.                                                   *)
EXTENDS LP, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)

Attains(p, w, x) == IsVec(x, p.n) /\ Feasible(p, x) /\ Value(p, x) = OptimalValue(p, w)
Solve(r) ==
  IF r.k # "ok" THEN {"outcome-" \o r.k}
  ELSE (IF r.w.kind = "optimal" THEN (IF Attains(r.p, r.w, r.x) THEN {} ELSE {IF r.x.k = "none" THEN "missed" ELSE "solution"})
        ELSE (IF r.x.k = "none" THEN {} ELSE {r.w.kind}))
       \cup (IF r.v[1] = "skip" THEN {}
             ELSE IF r.w.kind = "optimal" THEN (IF r.v[1] = "vec" /\ Norm(r.v[2], r.v[3]) = OptimalValue(r.p, r.w) THEN {} ELSE {"value"})
             ELSE (IF r.v[1] = "none" THEN {} ELSE {"value"}))

(* B is a maximal independent set of columns of p: some square part of its columns is invertible, and no column can be added *)
Subs(n, k) == {S \in SUBSET (1..n) : Cardinality(S) = k}
Sorted(S) == LET RECURSIVE go(_)
                 go(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE a \in T : \A b \in T : a <= b IN <<m>> \o go(T \ {m})
             IN go(S)
Part(p, R, B) == [u \in DOMAIN R |-> [k \in DOMAIN B |-> p.A[R[u]][B[k]]]]
Independent(p, B) == \E S \in Subs(p.m, Len(B)) : Det(Part(p, Sorted(S), B)) # 0
Maximal(p, B) == \A j \in 1..p.n : j \in SetOf(B) \/ ~Independent(p, Append(B, j))
ColumnBasis(p, B) == InRange(p, B) /\ Distinct(B) /\ (IF Len(B) = p.m THEN IsBasis(p, B) ELSE Independent(p, B) /\ Maximal(p, B))

Two(r) ==
  IF ~IsSef(r.p) THEN (IF r.k = "exc" THEN {} ELSE {"rejected"})
  ELSE IF r.k # "ok" THEN {"outcome-" \o r.k}
  ELSE CASE r.w.kind = "optimal" ->
              IF r.hb = 0 \/ r.x.k = "none" THEN {"missed"}
              ELSE (IF Attains(r.p, r.w, r.x) THEN {} ELSE {"solution"})
                   \cup (IF IsVec(r.x, r.p.n) /\ ColumnBasis(r.p, r.nb) /\ IsBasicSolution(r.p, r.x, r.nb) THEN {} ELSE {"basis"})
                   \cup (IF IsVec(r.y, r.p.m) /\ DualFeasible(r.p, r.y) /\ YB(r.p, r.y) = Lin(r.p, r.w.x) THEN {} ELSE {"certificate"})
                   \cup (IF r.ver = 1 THEN {} ELSE {"verifier"})
         [] r.w.kind = "infeasible" ->
              (IF r.hb = 0 /\ r.x.k = "none" THEN {} ELSE {"infeasible"})
              \cup (IF IsVec(r.y, r.p.m) /\ ProvesInfeasible(r.p, r.y) THEN {} ELSE {"certificate"})
              \cup (IF r.ver = 1 THEN {} ELSE {"verifier"})
         [] r.w.kind = "unbounded" ->
              (IF r.hb = 0 /\ r.x.k = "none" THEN {} ELSE {"unbounded"})
              \cup (IF IsVec(r.y, r.p.n) /\ IsVec(r.d, r.p.n) /\ ProvesUnbounded(r.p, r.y, r.d) THEN {} ELSE {"certificate"})
              \cup (IF r.ver = 1 THEN {} ELSE {"verifier"})

Failing(r) ==
  IF ~Witnesses(r.p, r.w) THEN {"no-witness"}
  ELSE (IF r.f = "solve" THEN Solve(r) ELSE Two(r)) \cup (IF r.same = 1 THEN {} ELSE {"altered"})
INSTANCE OneStep
=============================================================================
