----------------------------- MODULE TracePrint -----------------------------
(* L12: recorded texts.  Record: p (numbers as digit sequences), k, t (lines as  *)
(* code points), same.                                                          *)
EXTENDS Printing, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Failing(r) ==
  IF r.k # "ok" THEN {"outcome-" \o r.k}
  ELSE LET w == Printed(r.p) IN
       (IF Len(r.t) >= 1 /\ r.t[1] = w[1] THEN {} ELSE {"objective"})
       \cup (IF Len(r.t) >= 3 + r.p.m /\ \A k \in 2..(3 + r.p.m) : r.t[k] = w[k] THEN {} ELSE {"rows"})
       \cup (IF SubSeq(r.t, 4 + r.p.m, Len(r.t)) = SubSeq(w, 4 + r.p.m, Len(w)) THEN {} ELSE {"signs"})
       \cup (IF r.same = 1 THEN {} ELSE {"altered"})
INSTANCE OneStep
=============================================================================
