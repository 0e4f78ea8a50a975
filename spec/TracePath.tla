------------------------------ MODULE TracePath ------------------------------
(* G04: recorded shortest paths and formulations.  Record: n, s (scale),     *)
(* arcs <<a, b, weight>>, a, b (ids; above n: absent), path [k, p], form [k,  *)
(* p, w] with the observed program p and a witness w of its optimum, same.    *)
EXTENDS UGraphOps, LP, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
E(r) == {{r.arcs[p][1], r.arcs[p][2]} : p \in DOMAIN r.arcs}
Wt(r) == [e \in E(r) |-> LET p == CHOOSE p \in DOMAIN r.arcs : {r.arcs[p][1], r.arcs[p][2]} = e IN r.arcs[p][3]]
V(r) == 1..r.n
Known(r) == r.a \in V(r) /\ r.b \in V(r)
Dist(r) == Distances(V(r), E(r), Wt(r), r.a)[r.b]
PathOk(r) ==
  IF ~Known(r) THEN r.path.k = "exc"
  ELSE IF Dist(r) >= Inf THEN r.path.k = "exc"
  ELSE /\ r.path.k = "ok" /\ IsWalk(E(r), r.path.p, r.a, r.b)
       /\ WalkWeight(Wt(r), r.path.p) = Dist(r)
FormOk(r) ==
  IF ~Known(r) THEN r.form.k = "exc"
  ELSE IF Dist(r) >= Inf THEN r.form.k = "exc" \/ (r.form.k = "ok" /\ r.form.p.k = "ok" /\ Witnesses(r.form.p, r.form.w) /\ r.form.w.kind = "infeasible")
  ELSE /\ r.form.k = "ok" /\ r.form.p.k = "ok" /\ r.form.p.n = Cardinality(E(r))
       /\ Witnesses(r.form.p, r.form.w) /\ r.form.w.kind = "optimal"
       /\ OptimalValue(r.form.p, r.form.w) = Norm(Dist(r), r.s)
Failing(r) == (IF PathOk(r) THEN {} ELSE {"path"}) \cup (IF r.form.k = "skip" \/ FormOk(r) THEN {} ELSE {"formulation"})
              \cup (IF r.same = 1 THEN {} ELSE {"graph"})
Recs == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE OneStep
=============================================================================
