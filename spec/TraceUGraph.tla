----------------------------- MODULE TraceUGraph -----------------------------
(* Recorded histories of real UndirectedGraph objects.  After each call the  *)
(* recorder logs vertices, edges and adjacency of every live graph.          *)
EXTENDS UGraph, Json, IOUtils
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)

ToMap(s) == [k \in {s[p][1] : p \in DOMAIN s} |-> LET p == CHOOSE q \in DOMAIN s : s[q][1] = k IN s[p][2]]
EdgeMap(s) == [k \in {{s[p][1], s[p][2]} : p \in DOMAIN s} |->
                 LET p == CHOOSE q \in DOMAIN s : {s[q][1], s[q][2]} = k IN s[p][3]]
SetOf(s) == {s[p] : p \in DOMAIN s}

(* the projected state agrees with graph g, without duplicates *)
Shows(o, g) ==
  /\ ToMap(o.v) = g.v /\ Len(o.v) = Cardinality(DOMAIN g.v)
  /\ EdgeMap(o.e) = g.e /\ Len(o.e) = Cardinality(DOMAIN g.e)
  /\ SetOf([p \in DOMAIN o.g |-> o.g[p][1]]) = DOMAIN g.v /\ Len(o.g) = Cardinality(DOMAIN g.v)
  /\ \A p \in DOMAIN o.g : SetOf(o.g[p][2]) = Neighbours(g, o.g[p][1])

Observed(e) == \A p \in DOMAIN e.post :
   /\ e.post[p].h \in DOMAIN store'
   /\ Shows(e.post[p], store'[e.post[p].h])
Prints(r, e) == e.c.op = "text" => /\ SetOf(e.t) = Printed(store'[e.c.h], r.names)
                                   /\ Len(e.t) = Cardinality(DOMAIN store'[e.c.h].v)

TraceInit == store = <<>> /\ i \in 1..Len(Recs) /\ l = 1
TraceNext ==
  /\ l <= Len(Recs[i].ev)
  /\ i' = i
  /\ LET e == Recs[i].ev[l]
     IN IF ENABLED (Act(e.c, e.ret) /\ Observed(e) /\ Prints(Recs[i], e))
        THEN Act(e.c, e.ret) /\ l' = l + 1
        ELSE /\ PrintT("FAIL" \o ToJson([i |-> i, l |-> l,
                   c |-> <<IF ENABLED (Act(e.c, e.ret) /\ Prints(Recs[i], e)) THEN "state-after-" \o e.c.op ELSE "result-of-" \o e.c.op>>]))
             /\ l' = Len(Recs[i].ev) + 2 /\ UNCHANGED store
TraceSpec == TraceInit /\ [][TraceNext]_<<store, i, l>>
=============================================================================
