---------------------------- MODULE TraceDescent ----------------------------
(* U01: recorded runs.  Record: f, the problem p, and                          *)
(*  "path"  sc, xs: the points reached with iteration limits 0, 1, 2, ... and   *)
(*          tolerance 0;  tol, y: the result for that tolerance and the largest *)
(*          of these limits                                                    *)
(*  "end"   y: the result in millionths, tol in millionths (steepest descent    *)
(*          or Newton's method, default limits)                                 *)
(*  "walk"  any smooth strictly convex (concave) function: steps (tables ok and *)
(*          fits, the objective's change worse), near, at (tables of Descent), end *)
(*          (1: the result with default limits is within tolerance), start (1: the *)
(*          result with limit 0 is the starting point)                         *)
(*  "sense" v: 1 if a program of the given sense was accepted, want             *)
(* k: outcome; same: the caller's starting point is as it was.                  *)
EXTENDS Descent, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Good(r, u) == Within(r.p, r.sc, r.xs[u], r.tol)
(* stops at the first point after the start that is within tolerance, or at the limit; a start within tolerance may be kept *)
Result(r) ==
  LET W == {u \in 2..Len(r.xs) : Good(r, u)}
      u == IF W = {} THEN Len(r.xs) ELSE CHOOSE a \in W : \A b \in W : a <= b
  IN r.y = r.xs[u] \/ (Good(r, 1) /\ r.y = r.xs[1])
Path(r) ==
  (IF \A u \in 1..(Len(r.xs) - 1) : Steps(r.p, r.sc, r.xs[u], r.xs[u + 1]) THEN {} ELSE {"step"})
  \cup (IF r.xs[1] = [j \in 1..r.p.n |-> r.x0[j] * r.sc] THEN {} ELSE {"start"})
  \cup (IF Result(r) THEN {} ELSE {"stop"})
Slack(r) == r.tol + 8 * r.p.n
End(r) == LET g == Grad(r.p, 1000000, r.y) IN IF \A j \in 1..r.p.n : g[j] <= Slack(r) /\ -g[j] <= Slack(r) THEN {} ELSE {"optimum"}
Walk(r) ==
  (IF \A u \in DOMAIN r.steps : Chosen(r.steps[u].ok, {r.steps[u].fits[t] : t \in DOMAIN r.steps[u].fits}) THEN {} ELSE {"step"})
  \cup (IF \A u \in DOMAIN r.steps : r.steps[u].worse # 1 THEN {} ELSE {"worse"})
  \cup (IF Stopped(r.near, {r.at[t] : t \in DOMAIN r.at}) THEN {} ELSE {"stop"})
  \cup (IF r.end # 0 THEN {} ELSE {"optimum"})
  \cup (IF r.start = 1 THEN {} ELSE {"start"})
Failing(r) ==
  IF r.f = "sense" THEN (IF (r.k = "ok") = (r.want = 1) THEN {} ELSE {"sense"})
  ELSE IF r.k # "ok" THEN {"outcome-" \o r.k}
  ELSE (IF r.f = "path" THEN Path(r) ELSE IF r.f = "walk" THEN Walk(r) ELSE End(r)) \cup (IF r.same = 1 THEN {} ELSE {"altered"})
INSTANCE OneStep
=============================================================================
