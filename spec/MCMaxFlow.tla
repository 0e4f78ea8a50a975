----------------------------- MODULE MCMaxFlow -----------------------------
(* Both methods on every graph over N nodes with capacities from Caps (node  *)
(* 1 the source, 2 the sink): capacities and conservation (for push: no       *)
(* deficit, valid heights) always hold, both stop, and then the value is that *)
(* of a minimum cut.                                                          *)
EXTENDS MaxFlow
CONSTANTS N, Caps, MaxArcs
VARIABLES A, cap, method
vars == <<A, cap, method, flow, height>>
V == 1..N
AllArcs == {a \in V \X V : a[1] # a[2]}
Init == /\ A \in {S \in SUBSET AllArcs : Cardinality(S) <= MaxArcs} /\ cap \in [A -> Caps] /\ method \in {"augment", "push"}
        /\ IF method = "augment" THEN BeginAugment(A) ELSE BeginPush(V, A, cap, 1)
Next == /\ IF method = "augment" THEN Augment(V, A, cap, 1, 2) ELSE Push(V, A, cap, 1, 2) \/ Relabel(V, A, cap, 1, 2)
        /\ UNCHANGED <<A, cap, method>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == IF method = "augment" THEN 2 \notin Reach(V, A, cap, flow, 1) ELSE Active(V, A, 1, 2) = {}
Common == WithinCapacity(A, cap, flow)
Feasible == IF method = "augment" THEN Conserved(V, A, flow, 1, 2)
            ELSE /\ \A x \in V \ {1} : Excess(A, flow, x) >= 0
                 /\ \A u, v \in V : ResidualCap(A, cap, flow, u, v) > 0 => height[u] <= height[v] + 1
                 /\ height[1] = N /\ height[2] = 0 /\ \A x \in V : height[x] < 2 * N
Result == Done => Conserved(V, A, flow, 1, 2) /\ IsMinCut(V, A, cap, 1, 2, FlowValue(A, flow, 1))
Stuck == (Done <=> ~ENABLED Next)
Safe == Common /\ Feasible /\ Result /\ Stuck
Ends == <>[]Done
(* every augmentation raises the value *)
Progress == [][method = "augment" => FlowValue(A, flow', 1) > FlowValue(A, flow, 1)]_vars
(* the residual graph of every flow met on the way cancels and restores: G08's definition is consistent *)
Residual == \A u, v \in V : u # v => ResidualCap(A, cap, flow, u, v) + ResidualCap(A, cap, flow, v, u)
              = (IF <<u, v>> \in A THEN cap[<<u, v>>] ELSE 0) + (IF <<v, u>> \in A THEN cap[<<v, u>>] ELSE 0)
=============================================================================
