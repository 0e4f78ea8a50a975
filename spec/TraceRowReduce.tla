---------------------------- MODULE TraceRowReduce ----------------------------
(* L13: recorded reductions.  Record: M (integer matrix, real data M / s),       *)
(* k, rows (observed rows, each a vector over one denominator), same, and         *)
(* "is": questions [M, s, k, v] to is_in_rref.                                    *)
EXTENDS RowReduce, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
RowIs(v, o) ==
  LET k == LeadAt(v) IN
  /\ o.k = "vec" /\ o.den > 0 /\ Len(o.num) = Len(v)
  /\ \A j \in DOMAIN v : Norm(o.num[j], o.den) = (IF k = 0 THEN <<0, 1>> ELSE Norm(v[j], v[k]))
ReducedOk(q) == LET A == Rref(q.M) IN q.k = "ok" /\ Len(q.rows) = Len(A) /\ \A u \in DOMAIN A : RowIs(A[u], q.rows[u])
Failing(q) ==
  (IF ReducedOk(q) THEN {} ELSE {"reduced"})
  \cup (IF \A u \in DOMAIN q.is : q.is[u].k = "ok" /\ (q.is[u].v = 1) = IsReduced(q.is[u].M, q.is[u].s) THEN {} ELSE {"recognised"})
  \cup (IF q.own = 1 THEN {} ELSE {"own"}) \cup (IF q.same = 1 THEN {} ELSE {"altered"})
INSTANCE OneStep
=============================================================================
