---------------------------- MODULE TraceBranch -----------------------------
(* I01: recorded runs of branch and bound.  Record: p, ints (the integral     *)
(* variables), cert (a certificate of the truth, checked here), k, x (the     *)
(* answer), same (program and integrality unchanged), relax (the relaxation,  *)
(* as read back; k = "skip" if not asked).                                    *)
EXTENDS Branch, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Ints(r) == {r.ints[u] : u \in DOMAIN r.ints}
Fields == {"m", "n", "s", "A", "b", "c", "z", "obj", "rel", "sgn"}
SameProgram(p, q) == \A f \in Fields : p[f] = q[f]
Failing(r) ==
  IF ~Certifies(r.p, Ints(r), r.cert) THEN {"no-certificate"}
  ELSE (IF r.k # "ok" THEN {"outcome-" \o r.k}
        ELSE IF Answers(r.p, Ints(r), r.cert, r.x) THEN {}
        ELSE IF r.cert.x.k = "none" THEN {"infeasible"}
        ELSE IF r.x.k = "none" THEN {"missed"}
        ELSE IF ~IsVec(r.x, r.p.n) THEN {"shape"}
        ELSE IF ~Feasible(r.p, r.x) THEN {"feasibility"}
        ELSE IF ~IntegralOn(r.x, Ints(r)) THEN {"integrality"}
        ELSE {"optimality"})
       \cup (IF r.same = 1 THEN {} ELSE {"altered"})
       \cup (IF r.relax.k = "skip" THEN {} ELSE IF r.relax.k = "ok" /\ SameProgram(r.p, r.relax.p) THEN {} ELSE {"relaxation"})
INSTANCE OneStep
=============================================================================
