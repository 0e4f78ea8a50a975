---------------------------- MODULE TraceSimplex ----------------------------
(* L03: recorded simplex iterations.  Record: p, start (a feasible basis), ev *)
(*   iter    [k, x, hb, nb, q]   one call: solution (or none), next basis (hb  *)
(*                               = 0: none), returned program                  *)
(*   simplex [k, x, hb, nb, y, from]  the whole method from a basis; y is the  *)
(*                               dual solution, or the ray with the point in x *)
EXTENDS Simplex, Json, IOUtils
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)

SameVec(x, y) == x.k = "vec" /\ Len(x.num) = Len(y.num) /\ \A j \in DOMAIN x.num : Norm(x.num[j], x.den) = Norm(y.num[j], y.den)
BasisIs(e, S) == e.hb = 1 /\ Len(e.nb) = Cardinality(S) /\ SetOf(e.nb) = S

(* clauses of an iteration that refuse the event *)
Refuse(p, e) ==
  LET v == View(p, basis) IN
  IF e.k # "ok" THEN {"iteration-" \o e.k}
  ELSE (IF e.q.k = "ok" /\ IsView(p, basis, v, e.q) THEN {} ELSE {"program"})
       \cup (IF IsOptimalView(p, v) THEN (IF SameVec(e.x, BasicX(p, basis, v)) /\ BasisIs(e, SetOf(basis)) THEN {} ELSE {"optimal"})
             ELSE IF IsRayView(p, v) THEN (IF e.x.k = "none" /\ e.hb = 0 THEN {} ELSE {"unbounded"})
             ELSE IF e.x.k = "none" /\ BasisIs(e, SetOf(Exchange(p, basis, v))) THEN {} ELSE {"exchange"})
RefuseRun(p, e) ==
  IF e.k # "ok" THEN {"simplex-" \o e.k}
  ELSE IF e.hb = 1
       THEN IF /\ IsVec(e.x, p.n) /\ IsVec(e.y, p.m) /\ ProvesOptimal(p, e.x, e.y)
               /\ IsBasis(p, e.nb) /\ IsBasicSolution(p, e.x, e.nb) THEN {} ELSE {"simplex-optimal"}
       ELSE IF e.xr.k = "none" /\ IsVec(e.x, p.n) /\ IsVec(e.y, p.n) /\ ProvesUnbounded(p, e.x, e.y) THEN {} ELSE {"simplex-unbounded"}
Bad(r, e) == CASE e.op = "iter" -> IF status = "run" THEN Refuse(r.p, e) ELSE {"iteration-after-end"}
               [] e.op = "simplex" -> RefuseRun(r.p, e)
               [] e.op = "same" -> IF e.same = 1 THEN {} ELSE {"altered"}
               [] e.op = "back" -> IF FeasibleView(View(r.p, e.nb)) THEN {} ELSE {"start"}
               [] OTHER -> {e.op}
Move(r, e) == CASE e.op = "iter" -> Iterate(r.p)
                [] e.op = "back" -> basis' = e.nb /\ status' = "run"
                [] OTHER -> UNCHANGED <<basis, status>>

TraceInit == /\ i \in 1..Len(Recs) /\ l = 1 /\ basis = Recs[i].start /\ status = "run"
TraceNext ==
  /\ l <= Len(Recs[i].ev) /\ i' = i
  /\ LET e == Recs[i].ev[l]  f == Bad(Recs[i], e)
     IN IF f = {} THEN Move(Recs[i], e) /\ l' = l + 1
        ELSE /\ PrintT("FAIL" \o ToJson([i |-> i, l |-> l, c |-> f]))
             /\ l' = Len(Recs[i].ev) + 2 /\ UNCHANGED <<basis, status>>
TraceSpec == TraceInit /\ [][TraceNext]_<<i, l, basis, status>>
=============================================================================
