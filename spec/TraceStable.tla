----------------------------- MODULE TraceStable -----------------------------
(* G05: recorded stable-set formulations.  Record: n, s, arcs, vw (vertex    *)
(* weights), k, p (observed program), map <<vertex, column>>s, best (what     *)
(* branch and bound returned), same.                                          *)
EXTENDS UGraphOps, LP, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
VARIABLES i, l
E(r) == {{r.arcs[q][1], r.arcs[q][2]} : q \in DOMAIN r.arcs}
MapOk(r) == /\ Len(r.map) = r.n
            /\ {r.map[q][1] : q \in DOMAIN r.map} = 1..r.n
            /\ {r.map[q][2] : q \in DOMAIN r.map} = 1..r.n
ColumnOf(r) == [x \in 1..r.n |-> LET q == CHOOSE q \in DOMAIN r.map : r.map[q][1] = x IN r.map[q][2]]
Weight(r, S) == MapThenSumSet(LAMBDA x : r.vw[x], S)
Indicator(r, S) == LET col == ColumnOf(r) IN [j \in 1..r.n |-> IF \E x \in S : col[x] = j THEN 1 ELSE 0]
Vec(xs) == [k |-> "vec", num |-> xs, den |-> 1]
Others(r) == IF r.n <= 4 THEN {x \in [1..r.n -> {-1, 0, 1, 2}] : \E j \in 1..r.n : x[j] \notin {0, 1}}
             ELSE {[j \in 1..r.n |-> IF j = q THEN v ELSE f[j]] : q \in 1..r.n, v \in {-1, 2}, f \in {Indicator(r, S) : S \in {{}, 1..r.n} \cup {{x} : x \in 1..r.n}}}
StableOk(r) == /\ \A S \in SUBSET (1..r.n) : Feasible(r.p, Vec(Indicator(r, S))) = Stable(E(r), S)
               /\ \A x \in Others(r) : ~Feasible(r.p, Vec(x))
WeightOk(r) == r.p.obj = "max" /\ \A S \in SUBSET (1..r.n) : Value(r.p, Vec(Indicator(r, S))) = Norm(Weight(r, S), r.s)
BestOk(r) == /\ r.best.k = "vec" /\ Len(r.best.num) = r.n /\ r.best.den = 1 /\ \A j \in 1..r.n : r.best.num[j] \in {0, 1}
             /\ LET col == ColumnOf(r)  T == {x \in 1..r.n : r.best.num[col[x]] = 1}
                IN Stable(E(r), T) /\ \A S \in SUBSET (1..r.n) : Stable(E(r), S) => Weight(r, S) <= Weight(r, T)
Failing(r) ==
  IF r.k # "ok" THEN {"formulated"}
  ELSE IF r.p.k # "ok" THEN {"program"}
  ELSE IF r.p.n # r.n THEN {"program"}
  ELSE IF ~MapOk(r) THEN {"mapping"}
  ELSE (IF StableOk(r) THEN {} ELSE {"stable"}) \cup (IF WeightOk(r) THEN {} ELSE {"weight"})
       \cup (IF r.int = 1 THEN {} ELSE {"integral"}) \cup (IF r.solve = 1 /\ ~BestOk(r) THEN {"optimum"} ELSE {})
       \cup (IF r.same = 1 THEN {} ELSE {"graph"})
Recs == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE OneStep
=============================================================================
