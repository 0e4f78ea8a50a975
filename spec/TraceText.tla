----------------------------- MODULE TraceText ------------------------------
(* P01 / P02: recorded parses.  Record: f ("graph" | "linear"), t (the text), *)
(* k, v: the triples <<start, end, millionths>>, or the vector in millionths; *)
(* size: the requested size, 0 = none; ty: the answer of get_expression_type   *)
(* (9 = not asked), va: of validate_expression (9 = not asked).               *)
EXTENDS Text, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Graph(r) ==
  LET F == Forms(r.t) IN
  (IF F = {} THEN (IF r.k = "exc" THEN {} ELSE {"accepted"})
   ELSE IF r.k # "ok" THEN {"refused"}
   ELSE IF r.v = Triples(r.t) THEN {} ELSE {"triples"})
  \cup (IF r.ty = 9 \/ (F = {} /\ r.ty = -1) \/ r.ty \in F THEN {} ELSE {"form"})
RepeatFree(t) == LET ts == LTerms(t) IN \A u \in DOMAIN ts : LTerm(ts[u], u = 1)
Lin(r) ==
  (IF ~Linear(r.t) THEN (IF r.k = "exc" THEN {} ELSE {"accepted"})
   ELSE IF r.size # 0 /\ r.size < LSize(r.t) THEN (IF r.k = "exc" THEN {} ELSE {"size"})
   ELSE IF r.k # "ok" THEN {"refused"}
   ELSE IF r.v = LVector(r.t, IF r.size = 0 THEN LSize(r.t) ELSE r.size) THEN {} ELSE {"vector"})
  \cup (IF r.va = 9 \/ (r.va = 1 /\ r.t # <<>> /\ RepeatFree(r.t)) \/ (r.va = 0 /\ ~Linear(r.t)) THEN {} ELSE {"validate"})
Failing(r) == IF r.f = "graph" THEN Graph(r) ELSE Lin(r)
INSTANCE OneStep
=============================================================================
