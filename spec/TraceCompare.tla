---------------------------- MODULE TraceCompare ----------------------------
(* C01: recorded answers.  Record: vs (the value: a sequence of numbers), t   *)
(* (the test), as = answers [f, k, v]: f one of the four operators, "neg",    *)
(* "pos", "int", "bad" (an unknown operator), with v 0 or 1, or "zero", with  *)
(* v the answer for each entry; same: the value was left alone.               *)
EXTENDS Compare, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
One(b) == IF b THEN 1 ELSE 0
All(r, f) == CASE f = "neg" -> \A u \in DOMAIN r.vs : Holds(r.vs[u], "<", Zero)
               [] f = "pos" -> \A u \in DOMAIN r.vs : Holds(r.vs[u], ">", Zero)
               [] f = "int" -> \A u \in DOMAIN r.vs : Integer(r.vs[u])
               [] OTHER -> \A u \in DOMAIN r.vs : Holds(r.vs[u], f, r.t)
Answer(r, a) ==
  IF a.f = "bad" THEN (IF a.k = "exc" THEN {} ELSE {"operator"})
  ELSE IF a.k # "ok" THEN {"outcome-" \o a.k}
  ELSE IF a.f = "zero"
  THEN IF Len(a.v) = Len(r.vs) /\ \A u \in DOMAIN r.vs : a.v[u] = One(Close(r.vs[u], Zero)) THEN {} ELSE {"zero"}
  ELSE IF a.v = <<One(All(r, a.f))>> THEN {} ELSE {a.f}
Failing(r) == UNION {Answer(r, r.as[u]) : u \in DOMAIN r.as} \cup (IF r.same = 1 THEN {} ELSE {"altered"})
INSTANCE OneStep
=============================================================================
