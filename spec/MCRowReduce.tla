----------------------------- MODULE MCRowReduce -----------------------------
(* Whatever pivots are taken, elimination ends in the one reduced form, keeps  *)
(* the solutions of M x = 0, and is the identity on reduced matrices.           *)
EXTENDS RowReduce, TLC
CONSTANTS R, C, Neg, Pos, G
VARIABLES M0, M, r, c
Init == M0 \in [1..R -> [1..C -> (-Neg)..Pos]] /\ M = M0 /\ r = 1 /\ c = 1
Skip == r <= R /\ c <= C /\ Pivots(M, r, c) = {} /\ c' = c + 1 /\ UNCHANGED <<M0, M, r>>
Pivot == r <= R /\ c <= C /\ \E k \in Pivots(M, r, c) : M' = Clear(Swap(M, r, k), r, c) /\ r' = r + 1 /\ c' = c + 1 /\ UNCHANGED M0
Spec == Init /\ [][Skip \/ Pivot]_<<M0, M, r, c>> /\ WF_<<M0, M, r, c>>(Skip \/ Pivot)
Done == r > R \/ c > C
Box == [1..C -> (-G)..G]
Kernel(A) == {x \in Box : \A i \in DOMAIN A : Dot(A[i], x) = 0}
Over(A, s) == \* A with every row scaled to leading entry s, when that is integral
  [i \in DOMAIN A |-> LET k == LeadAt(A[i]) IN IF k = 0 THEN A[i] ELSE [j \in DOMAIN A[i] |-> A[i][j] * (s \div A[i][k])]]
RECURSIVE Product(_, _)
Product(A, i) == IF i = 0 THEN 1 ELSE (IF LeadAt(A[i]) = 0 THEN 1 ELSE A[i][LeadAt(A[i])]) * Product(A, i - 1)
Safe == /\ Kernel(M) = Kernel(M0)
        /\ Done => M = Rref(M0) /\ IsReduced(Over(M, Product(M, R)), Product(M, R)) /\ Rref(M) = M
        /\ (M = M0 /\ IsReduced(M0, 1)) => Rref(M0) = M0
        /\ (M = M0 /\ Rref(M0) = M0 /\ \A i \in 1..R : LeadAt(M0[i]) # 0 => M0[i][LeadAt(M0[i])] = 1) => IsReduced(M0, 1)
Ends == <>Done
=============================================================================
