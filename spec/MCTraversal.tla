---------------------------- MODULE MCTraversal ----------------------------
(* Every traversal of every graph on N vertices: it ends, having given out   *)
(* the component of the start once each, breadth first in order of distance, *)
(* depth first so that whatever is given out between two adjacent vertices   *)
(* hangs below the first one; the structural predicates obey their laws.     *)
EXTENDS Traversal
CONSTANTS N, Ranks
VARIABLES E, start, method, rank
vars == <<E, start, method, rank, seen, queue, stack, walk>>
V == 1..N
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
Init == /\ Start /\ E \in SUBSET AllEdges /\ start \in V /\ method \in {"bfs", "dfs"}
        /\ rank \in (IF Ranks THEN [V -> 1..2] ELSE {[x \in V |-> x]})
Next == /\ \E v \in V : IF method = "bfs" THEN VisitBfs(E, rank, start, v) ELSE VisitDfs(E, start, v)
        /\ UNCHANGED <<E, start, method, rank>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A p, q \in DOMAIN walk : p # q => walk[p] # walk[q]
Inside == Range(walk) \subseteq Component(E, start)
Complete == (Finished(method, V, E, start) <=> Range(walk) = Component(E, start)) /\ (Finished(method, V, E, start) <=> ~ENABLED Next)
Dist == Distances(V, E, [e \in E |-> 1], start)
Breadth == method = "bfs" => \A p, q \in DOMAIN walk : p < q => Dist[walk[p]] <= Dist[walk[q]]
Laws == walk = <<>> =>
  /\ Tree(V, E) <=> (Connected(V, E) /\ Cardinality(E) = N - 1)
  /\ ~Cyclic(E) <=> (Cardinality(E) = N - Cardinality(Components(V, E)))
  /\ Connected(V, E) <=> Cardinality(Components(V, E)) = 1
  /\ UNION Components(V, E) = V
Safe == Once /\ Inside /\ Complete /\ Breadth /\ Laws
Ends == <>[](Finished(method, V, E, start))
=============================================================================
