------------------------------- MODULE Simplex -------------------------------
(***************************************************************************)
(* The simplex method: from a feasible basis, exchange by Bland's rule until *)
(* the view is optimal or shows a ray.                                       *)
(***************************************************************************)
EXTENDS Canon
VARIABLES basis, status          \* status: "run", "optimal", "unbounded"
Iterate(p) ==
  /\ status = "run"
  /\ LET v == View(p, basis) IN
     IF IsOptimalView(p, v) THEN status' = "optimal" /\ UNCHANGED basis
     ELSE IF IsRayView(p, v) THEN status' = "unbounded" /\ UNCHANGED basis
     ELSE basis' = Exchange(p, basis, v) /\ UNCHANGED status
=============================================================================
