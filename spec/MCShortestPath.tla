--------------------------- MODULE MCShortestPath ---------------------------
(* Every graph on N vertices with weights 0..W: the cut multipliers stay a   *)
(* feasible solution of the dual of  min {wx : x(cut) >= 1},  the path found *)
(* is a walk of that weight, hence both the path and the formulation have    *)
(* the distance as their value; it is reached iff the vertex is connected.   *)
EXTENDS ShortestPath
CONSTANTS N, W
VARIABLES E, w
vars == <<E, w, reached, pot, raised, parent>>
V == 1..N
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
Init == E \in SUBSET AllEdges /\ w \in [E -> 0..W] /\ Begin(V, E, 1)
Next == Step(E, w) /\ UNCHANGED <<E, w>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Dist == Distances(V, E, w, 1)
DualFeasible == \A e \in E : pot[e] <= w[e] /\ pot[e] >= 0
Tight == \A y \in reached : /\ IsWalk(E, PathTo(1, y), 1, y) /\ WalkWeight(w, PathTo(1, y)) = Dist[y]
Newest == \A y \in reached : Dist[y] <= raised
Value == \A y \in V \ reached : Dist[y] >= raised
Exhaust == Boundary(E) = {} => reached = Component(E, 1) /\ \A y \in V : (Dist[y] < Inf) = (y \in reached)
Safe == DualFeasible /\ Tight /\ Newest /\ Value /\ Exhaust
Ends == <>[](Boundary(E) = {})
=============================================================================
