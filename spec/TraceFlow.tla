------------------------------ MODULE TraceFlow ------------------------------
(* G07 / G08: recorded maximum flows and residual graphs.  Record: n, arcs    *)
(* <<a, b, capacity>>s, f ("ford_fulkerson" | "preflow_push" | "residual"),   *)
(* a, b (endpoints; above n: absent), in (the given flow, <<a, b, f>>s), k,   *)
(* v (value), out (<<a, b, number>>s), cut (a witness side), same.            *)
EXTENDS UGraphOps, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Bad == -99999999
A(r) == {<<r.arcs[q][1], r.arcs[q][2]>> : q \in DOMAIN r.arcs}
AsMap(s) == [a \in {<<s[q][1], s[q][2]>> : q \in DOMAIN s} |-> LET q == CHOOSE q \in DOMAIN s : <<s[q][1], s[q][2]>> = a IN s[q][3]]
V(r) == 1..r.n

FlowFailing(r) ==
  LET cap == AsMap(r.arcs) IN
  IF r.a \notin V(r) \/ r.b \notin V(r) \/ r.a = r.b THEN (IF r.k = "exc" THEN {} ELSE {"rejected"})
  ELSE IF r.k # "ok" THEN {"outcome-" \o r.k}
  ELSE IF Len(r.out) # Cardinality(A(r)) \/ {<<r.out[q][1], r.out[q][2]>> : q \in DOMAIN r.out} # A(r) THEN {"arcs"}
  ELSE LET f == AsMap(r.out) IN
    (IF \A a \in A(r) : f[a] # Bad /\ f[a] >= 0 /\ f[a] <= cap[a] THEN {} ELSE {"capacity"})
    \cup (IF Conserved(V(r), A(r), f, r.a, r.b) THEN {} ELSE {"conserved"})
    \cup (IF r.v # Bad /\ r.v = FlowValue(A(r), f, r.a) THEN {} ELSE {"value"})
    \cup (IF IF r.n <= 7 THEN IsMinCut(V(r), A(r), cap, r.a, r.b, r.v)
             ELSE LET S == {r.cut[q] : q \in DOMAIN r.cut} IN r.a \in S /\ r.b \notin S /\ S \subseteq V(r) /\ r.v = CutCapacity(A(r), cap, S)
          THEN {} ELSE {"maximum"})

ResidualFailing(r) ==
  LET cap == AsMap(r.arcs)  g == AsMap(r.in)
      legal == DOMAIN g \subseteq A(r) /\ (\A a \in DOMAIN g : g[a] >= 0 /\ g[a] <= cap[a]) /\ (\A a \in A(r) : cap[a] >= 0)
      full == [a \in A(r) |-> IF a \in DOMAIN g THEN g[a] ELSE 0]
  IN IF ~legal THEN (IF r.k = "exc" THEN {} ELSE {"rejected"})
     ELSE IF r.k # "ok" THEN {"outcome-" \o r.k}
     ELSE LET want == {<<u, v, ResidualCap(A(r), cap, full, u, v)>> : <<u, v>> \in {p \in V(r) \X V(r) : p[1] # p[2] /\ ResidualCap(A(r), cap, full, p[1], p[2]) > 0}}
          IN IF Len(r.out) = Cardinality(want) /\ {<<r.out[q][1], r.out[q][2], r.out[q][3]>> : q \in DOMAIN r.out} = want THEN {} ELSE {"residual"}

Failing(r) == (IF r.f = "residual" THEN ResidualFailing(r) ELSE FlowFailing(r)) \cup (IF r.same = 1 THEN {} ELSE {"graph"})
Recs == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE OneStep
=============================================================================
