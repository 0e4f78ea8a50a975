------------------------------- MODULE MCCuts -------------------------------
(* Laws of the boundary operators, on every graph with N vertices while arcs *)
(* are added and removed: complement symmetry, submodularity, handshake.      *)
EXTENDS UGraphOps, TLC
CONSTANT N
VARIABLES A
V == 1..N
E == {{a[1], a[2]} : a \in A}
Init == A = {}
Next == \E a \in V \X V : a[1] # a[2] /\ A' = (IF a \in A THEN A \ {a} ELSE A \cup {a})
Spec == Init /\ [][Next]_A
S2 == SUBSET V
Symmetric == \A S \in S2 : UCut(E, S) = UCut(E, V \ S) /\ OutCut(A, S) = InCut(A, V \ S)
Disjoint == \A S \in S2 : OutCut(A, S) \cap InCut(A, S) = {}
Split == \A S \in S2 : UCut(E, S) = {{a[1], a[2]} : a \in OutCut(A, S) \cup InCut(A, S)}
Submodular == \A S, T \in S2 : Cardinality(OutCut(A, S \cup T)) + Cardinality(OutCut(A, S \cap T)) <= Cardinality(OutCut(A, S)) + Cardinality(OutCut(A, T))
Absent == \A S \in S2 : UCut(E, S \cup {N + 1}) = UCut(E, S) /\ OutCut(A, S \cup {N + 1}) = OutCut(A, S)
Laws == Symmetric /\ Disjoint /\ Split /\ Submodular /\ Absent
=============================================================================
