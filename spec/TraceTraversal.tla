--------------------------- MODULE TraceTraversal ---------------------------
(* G03: recorded walks and structural queries.  A record is a graph (n, arcs) *)
(* and a history ev of events:                                                *)
(*   begin [m, s, rank]  visit [v]  end  raise     - one walk                 *)
(*   ask [f, k, v]                                 - a structural predicate   *)
(*   parts [k, p]                                  - partition()              *)
(*   same [arcs, ...]                              - the graph afterwards     *)
EXTENDS Traversal, Json, IOUtils
VARIABLES i, l, cur
Recs == ndJsonDeserialize(IOEnv.TRACE)
V(r) == 1..r.n
Es(a) == {{a[p][1], a[p][2]} : p \in DOMAIN a}
E(r) == Es(r.arcs)
Wt(a, e) == LET p == CHOOSE p \in DOMAIN a : {a[p][1], a[p][2]} = e IN a[p][3]

Answer(r, f) == CASE f \in {"is_connected", "has_spanning_tree"} -> Connected(V(r), E(r))
                  [] f = "is_cyclic" -> Cyclic(E(r))
                  [] f = "is_tree" -> Tree(V(r), E(r))
                  [] f = "is_empty" -> r.n = 0
(* part: [v : <<id, weight>>s, e : <<a, b, weight>>s, g : <<id, nbrs>>s] *)
PartOk(r, q) ==
  LET S == {q.v[p][1] : p \in DOMAIN q.v}  F == Es(q.e) IN
  /\ S \in Components(V(r), E(r)) /\ Len(q.v) = Cardinality(S)
  /\ \A p \in DOMAIN q.v : q.v[p][2] = r.vw[q.v[p][1]]
  /\ F = {e \in E(r) : e \subseteq S} /\ Len(q.e) = Cardinality(F)
  /\ \A p \in DOMAIN q.e : q.e[p][3] = Wt(r.arcs, {q.e[p][1], q.e[p][2]})
  /\ Len(q.g) = Cardinality(S) /\ \A p \in DOMAIN q.g : q.g[p][1] \in S /\ Range(q.g[p][2]) = Nbr(E(r), q.g[p][1])
PartsOk(r, ps) == (\A p \in DOMAIN ps : PartOk(r, ps[p])) /\ Len(ps) = Cardinality(Components(V(r), E(r)))
                  /\ {{ps[p].v[q][1] : q \in DOMAIN ps[p].v} : p \in DOMAIN ps} = Components(V(r), E(r))

Idle == [m |-> "", s |-> 0, rank |-> <<>>]
Keep == UNCHANGED <<seen, queue, stack, walk>>
Forget == seen' = {} /\ queue' = <<>> /\ stack' = <<>> /\ walk' = <<>>
Act(r, e) ==
  CASE e.op = "begin" -> Forget /\ cur' = [m |-> e.m, s |-> e.s, rank |-> e.rank]
    [] e.op = "visit" -> /\ cur.s \in V(r) /\ UNCHANGED cur
                         /\ (CASE cur.m = "bfs" -> VisitBfs(E(r), cur.rank, cur.s, e.v)
                              [] cur.m = "dfs" -> VisitDfs(E(r), cur.s, e.v)
                              [] cur.m = "rng" -> VisitAny(V(r), e.v))
    [] e.op = "end"   -> cur.s \in V(r) /\ Finished(cur.m, V(r), E(r), cur.s) /\ cur' = Idle /\ Keep
    [] e.op = "raise" -> cur.s \notin V(r) /\ walk = <<>> /\ cur' = Idle /\ Keep
    [] e.op = "ask"   -> e.k = "ok" /\ e.v = (IF Answer(r, e.m) THEN 1 ELSE 0) /\ UNCHANGED cur /\ Keep
    [] e.op = "parts" -> e.k = "ok" /\ PartsOk(r, e.p) /\ UNCHANGED cur /\ Keep
    [] e.op = "same"  -> e.k = "ok" /\ UNCHANGED cur /\ Keep
    [] OTHER -> FALSE /\ UNCHANGED cur /\ Keep

TraceInit == Start /\ cur = Idle /\ i \in 1..Len(Recs) /\ l = 1
TraceNext ==
  /\ l <= Len(Recs[i].ev) /\ i' = i
  /\ LET e == Recs[i].ev[l]  r == Recs[i]
     IN IF ENABLED Act(r, e) THEN Act(r, e) /\ l' = l + 1
        ELSE /\ PrintT("FAIL" \o ToJson([i |-> i, l |-> l, c |-> <<e.op \o "-" \o (IF e.op \in {"visit", "end", "raise"} THEN cur.m ELSE e.m)>>]))
             /\ l' = Len(Recs[i].ev) + 2 /\ UNCHANGED <<cur, seen, queue, stack, walk>>
TraceSpec == TraceInit /\ [][TraceNext]_<<i, l, cur, seen, queue, stack, walk>>
=============================================================================
