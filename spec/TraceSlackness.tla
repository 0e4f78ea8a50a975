--------------------------- MODULE TraceSlackness ---------------------------
(* L14: the recorded list of conditions.  Record: p, k, cs (the conditions as   *)
(* printed, parsed), same (the program was left alone).                        *)
EXTENDS Slackness, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Seen(r) == {r.cs[x] : x \in DOMAIN r.cs}
Failing(r) ==
  IF r.k # "ok" THEN {"outcome-" \o r.k}
  ELSE (IF Conditions(r.p) \subseteq Seen(r) THEN {} ELSE {"missing"})
       \cup (IF Seen(r) \subseteq Conditions(r.p) THEN {} ELSE {"wrong"})
       \cup (IF Cardinality(Seen(r)) = Len(r.cs) THEN {} ELSE {"repeated"})
       \cup (IF r.same = 1 THEN {} ELSE {"altered"})
INSTANCE OneStep
=============================================================================
