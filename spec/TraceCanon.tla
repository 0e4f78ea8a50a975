----------------------------- MODULE TraceCanon -----------------------------
(* L04: recorded canonical forms.  Record: p, B (any index list), k, o (the   *)
(* observed result), is <<program, basis, answer>>s of is_canonical_form_for,  *)
(* same.                                                                      *)
EXTENDS Canon, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
(* a program has the canonical shape for an ascending basis (whose determinant is then s^m # 0) *)
Shaped(p, B) == /\ Len(B) = p.m /\ InRange(p, B) /\ Distinct(B)
                /\ \A k, q \in 1..p.m : p.A[k][B[q]] = IF k = q THEN p.s ELSE 0
                /\ \A q \in 1..p.m : p.c[B[q]] = 0
Form(r) ==
  IF ~IsSef(r.p) \/ ~IsBasis(r.p, r.B) THEN (IF r.k = "exc" THEN {} ELSE {"rejected"})
  ELSE IF r.k # "ok" THEN {"outcome-" \o r.k}
  ELSE IF r.o.k = "ok" /\ IsView(r.p, r.B, View(r.p, r.B), r.o) THEN {} ELSE {"canonical"}
Asked(a) == a.k = "ok" /\ (a.v = 1) = (IF a.p = [own |-> 1] THEN TRUE ELSE Shaped(a.p, a.B))
Failing(r) == Form(r) \cup (IF \A q \in DOMAIN r.is : Asked(r.is[q]) THEN {} ELSE {"recognised"}) \cup (IF r.same = 1 THEN {} ELSE {"altered"})
INSTANCE OneStep
=============================================================================
