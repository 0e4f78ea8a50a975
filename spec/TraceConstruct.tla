--------------------------- MODULE TraceConstruct ---------------------------
(* L10: recorded constructions.  Record: a (the arguments), k, q (what the      *)
(* program reports; numbers as opaque values), sef (its own answer), args = 1:   *)
(* the arguments are as they were.                                              *)
EXTENDS Construct, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Failing(r) ==
  (IF ~WellFormed(r.a) THEN (IF r.k = "exc" THEN {} ELSE {"accepted"})
   ELSE IF r.k # "ok" THEN {"refused"}
   ELSE (IF r.q = Built(r.a) THEN {} ELSE {"reported"})
        \cup (IF r.sef = (IF Standard(Built(r.a)) THEN 1 ELSE 0) THEN {} ELSE {"standard"}))
  \cup (IF r.args = 1 THEN {} ELSE {"arguments"})
INSTANCE OneStep
=============================================================================
