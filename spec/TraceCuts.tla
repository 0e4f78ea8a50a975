------------------------------ MODULE TraceCuts ------------------------------
(* G02: cuts and degrees of recorded graphs.  Record: dir (0|1), n, arcs     *)
(* (pairs; unordered when dir = 0), q : queries [f, s, ret] where s lists the *)
(* ids named (ids > n are names absent from the graph), ret.k = "ok"|"exc",   *)
(* ret.v a number, ret.a the arcs returned.                                   *)
EXTENDS UGraphOps, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l

Set(s) == {s[p] : p \in DOMAIN s}
Arcs(r) == {<<a[1], a[2]>> : a \in Set(r.arcs)}
Edges(r) == {{a[1], a[2]} : a \in Set(r.arcs)}
Pairs(s) == {<<a[1], a[2]>> : a \in Set(s)}

Right(r, q) ==
  LET S == Set(q.s)  A == Arcs(r)  E == Edges(r) IN
  /\ q.ret.k = "ok"
  /\ IF r.dir = 0
     THEN CASE q.f = "cut"    -> {{a[1], a[2]} : a \in Set(q.ret.a)} = UCut(E, S) /\ Len(q.ret.a) = Cardinality(UCut(E, S))
            [] q.f = "degree" -> q.ret.v = Cardinality(UCut(E, S))
     ELSE CASE q.f = "cut"    -> Pairs(q.ret.a) = OutCut(A, S) /\ Len(q.ret.a) = Cardinality(OutCut(A, S))
            [] q.f = "ncut"   -> Pairs(q.ret.a) = InCut(A, S) /\ Len(q.ret.a) = Cardinality(InCut(A, S))
            [] q.f = "outdegree" -> q.ret.v = Cardinality(OutCut(A, S))
            [] q.f = "indegree"  -> q.ret.v = Cardinality(InCut(A, S))
            [] q.f = "connections" -> q.ret.v = Cardinality(OutCut(A, S)) + Cardinality(InCut(A, S))

Failing(r) ==
  IF r.crash # "" THEN {"crash-" \o r.crash}
  ELSE {r.q[p].f : p \in {p \in DOMAIN r.q : ~Right(r, r.q[p])}}
       \cup (IF /\ Len(r.after) = Len(r.arcs)
                /\ IF r.dir = 1 THEN Pairs(r.after) = Arcs(r) ELSE {{a[1], a[2]} : a \in Set(r.after)} = Edges(r)
             THEN {} ELSE {"graph"})

Recs == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE OneStep
=============================================================================
