------------------------------- MODULE TraceDraw -------------------------------
(* L15: a batch of recorded draws.  Record: m, n, g (what was asked, magnitude   *)
(* in thousandths), full (the batch is large enough to leave no choice unused),   *)
(* ds (draws: k and the fields of Draw.tla), spread (the extremes of every datum),  use (the drawn programs can be       *)
(* copied, printed, converted and dualised), codes (for very large batches: the     *)
(* choices and signs of data of each draw).                                        *)
EXTENDS Draw, Json, IOUtils, SequencesExt, TLC
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Failing(r) ==
  IF \E x \in DOMAIN r.ds : r.ds[x].k # "ok" THEN {"outcome-" \o r.ds[x].k : x \in {x \in DOMAIN r.ds : r.ds[x].k # "ok"}}
  ELSE (IF \A x \in DOMAIN r.ds : Drawable(r.ds[x], r.m, r.n, r.g) THEN {} ELSE {"drawn"})
       \cup (IF r.full = 0 \/ (Covers(r.ds) /\ Len(r.spread) = r.m * r.n + r.m + r.n + 1 /\ Spread(r.spread)) THEN {} ELSE {"coverage"})
       \cup (IF Len(r.codes) = 0 \/ Combined(r.codes, Domains(r.m, r.n)) THEN {} ELSE {"combinations"})
       \cup (IF r.use = 1 THEN {} ELSE {"unusable"})
INSTANCE OneStep
=============================================================================
