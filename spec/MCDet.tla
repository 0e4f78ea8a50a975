-------------------------------- MODULE MCDet --------------------------------
(* Fraction-free elimination computes the determinant, for every small matrix. *)
EXTENDS LP
CONSTANTS M, Neg, Pos
VARIABLES A, ph
Init == A \in [1..M -> [1..M -> (-Neg)..Pos]] /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED A
Spec == Init /\ [][Next]_<<A, ph>>
Safe == ph = 1 => Bareiss(A) = Laplace(A)
=============================================================================
