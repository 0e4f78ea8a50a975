--------------------------- MODULE TraceDisjoint ---------------------------
(* Recorded call histories of the real DisjointSet, stepped through the spec. *)
EXTENDS DisjointSet, TLC, Json, IOUtils
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)

Act(e) ==
  CASE e.op = "create" -> Create(e.s, e.ret)
    [] e.op = "find"   -> Find(e.a, e.ret)
    [] e.op = "union"  -> Union(e.a, e.b, e.ret)

TraceInit == DSInit /\ i \in 1..Len(Recs) /\ l = 1
TraceNext ==
  /\ l <= Len(Recs[i].ev)
  /\ i' = i
  /\ LET e == Recs[i].ev[l]
     IN IF ENABLED Act(e)
        THEN Act(e) /\ l' = l + 1
        ELSE /\ PrintT("FAIL" \o ToJson([i |-> i, l |-> l, c |-> <<e.op>>]))
             /\ l' = Len(Recs[i].ev) + 2 /\ UNCHANGED dsvars
TraceSpec == TraceInit /\ [][TraceNext]_<<dsvars, i, l>>
=============================================================================
