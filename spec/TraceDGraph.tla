----------------------------- MODULE TraceDGraph -----------------------------
EXTENDS DGraph, Json, IOUtils
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)

NodeSet(s) == {s[p] : p \in DOMAIN s}
ArcSet(s) == {<<s[p][1], s[p][2]>> : p \in DOMAIN s}
NodeMap(s) == [k \in {s[p][1] : p \in DOMAIN s} |-> LET p == CHOOSE q \in DOMAIN s : s[q][1] = k IN s[p][2]]
ArcMap(s) == [k \in ArcSet(s) |-> LET p == CHOOSE q \in DOMAIN s : s[q][1] = k[1] /\ s[q][2] = k[2] IN s[p][3]]

Shows(o, q) ==
  /\ NodeSet(o.nodes) = DOMAIN q.n /\ Len(o.nodes) = Cardinality(DOMAIN q.n)
  /\ ArcSet(o.arcs) = DOMAIN q.a /\ Len(o.arcs) = Cardinality(DOMAIN q.a)
  /\ o.weights = 1 => NodeMap(o.n) = q.n /\ ArcMap(o.a) = q.a
Observed(e) == e.live = 1 => Shows(e.post, g')

TraceInit == g = Empty /\ i \in 1..Len(Recs) /\ l = 1
TraceNext ==
  /\ l <= Len(Recs[i].ev)
  /\ i' = i
  /\ LET e == Recs[i].ev[l]
     IN IF ENABLED (Act(e.c, e.ret) /\ Observed(e))
        THEN Act(e.c, e.ret) /\ l' = l + 1
        ELSE /\ PrintT("FAIL" \o ToJson([i |-> i, l |-> l,
                   c |-> <<IF ENABLED Act(e.c, e.ret) THEN "state-after-" \o e.c.op ELSE "result-of-" \o e.c.op>>]))
             /\ l' = Len(Recs[i].ev) + 2 /\ UNCHANGED g
TraceSpec == TraceInit /\ [][TraceNext]_<<g, i, l>>
=============================================================================
