--------------------------- MODULE TraceTransform ---------------------------
(* L05 / L06: recorded standard forms and duals.  Record: f ("sef" | "dual"), *)
(* p, k, q (observed result), qq (the transformation applied to the result),  *)
(* vals (pairs of optimal values <<k, num, den>> of p and of q), same.         *)
EXTENDS Transform, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Want(f, p) == IF f = "sef" THEN Sef(p) ELSE Dual(p)
Is(q, want) == q.k = "ok" /\ Data(q) = want
(* linear parts: value minus constant *)
ValueOk(r, v) ==
  IF v[1][1] = "none" THEN v[2][1] = "none"
  ELSE /\ v[1][1] = "vec" /\ v[2][1] = "vec"
       /\ LET g == IF r.f = "sef" /\ r.p.obj = "min" THEN -1 ELSE 1
              z == IF r.f = "sef" THEN r.p.z ELSE 0
          IN Norm(g * (v[1][2] * r.p.s - r.p.z * v[1][3]), r.p.s * v[1][3]) = Norm(v[2][2] * r.p.s - z * v[2][3], r.p.s * v[2][3])
Failing(r) ==
  IF r.k # "ok" THEN {"outcome-" \o r.k}
  ELSE (IF Is(r.q, Want(r.f, r.p)) THEN {} ELSE {"result"})
       \cup (IF Is(r.qq, IF r.f = "sef" THEN Sef(r.p) ELSE [r.p EXCEPT !.z = 0]) THEN {} ELSE {"twice"})
       \cup (IF \A x \in DOMAIN r.vals : ValueOk(r, r.vals[x]) THEN {} ELSE {"values"})
       \cup {r.same[x] : x \in DOMAIN r.same}
INSTANCE OneStep
=============================================================================
