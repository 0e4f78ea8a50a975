----------------------------- MODULE MCTwoPhase -----------------------------
(* The two-phase method on every small program: it ends, and its outcome is  *)
(* proved by the certificate the method constructs, for the program as given. *)
EXTENDS TwoPhase
CONSTANTS M, N, Neg, Pos, Rhs
VARIABLES p, phase, q, rows      \* q: the program of the current phase; rows: rows of p kept in phase two
vars == <<p, basis, status, phase, q, rows>>
Vals == -Neg..Pos
Init == /\ \E A \in [1..M -> [1..N -> Vals]], b \in [1..M -> Rhs \cup {-1}], c \in [1..N -> Vals] :
             p = [m |-> M, n |-> N, s |-> 1, A |-> A, b |-> b, c |-> c, z |-> 0, obj |-> "max", rel |-> [i \in 1..M |-> "="], sgn |-> [j \in 1..N |-> "+"]]
        /\ q = Auxiliary(p) /\ basis = ArtificialBasis(p) /\ status = "run" /\ phase = 1 /\ rows = Sorted(1..M)
Work == Iterate(q) /\ UNCHANGED <<p, phase, q, rows>>
Art(B) == {k \in DOMAIN B : B[k] > p.n}
(* exchange one zero artificial against any usable column, or drop its row *)
Drive ==
  /\ phase = 1 /\ status = "optimal"
  /\ LET v == View(q, basis) IN
     /\ v.z = 0
     /\ IF Art(basis) = {} THEN phase' = 2 /\ q' = DropRows(p, (1..M) \ {rows[u] : u \in DOMAIN rows}) /\ status' = "run" /\ UNCHANGED <<p, basis, rows>>
        ELSE LET k == CHOOSE k \in Art(basis) : TRUE
                 usable == {j \in 1..p.n : v.A[k][j] # 0}
             IN IF usable # {} THEN /\ \E j \in usable : basis' = Sorted((SetOf(basis) \ {basis[k]}) \cup {j})
                                    /\ UNCHANGED <<p, phase, q, rows, status>>
                ELSE LET i == basis[k] - p.n      \* the row of this artificial is redundant
                         keep == Sorted((1..q.m) \ {i})
                     IN /\ rows' = [u \in DOMAIN keep |-> rows[keep[u]]]
                        /\ LET q0 == DropRows(p, (1..M) \ {rows[keep[u]] : u \in DOMAIN keep})
                               arts == {basis[u] : u \in DOMAIN basis} \ {basis[k]}
                           IN /\ q' = Auxiliary(q0)
                              /\ basis' = Sorted({IF j > p.n THEN p.n + (CHOOSE u \in DOMAIN keep : keep[u] = j - p.n) ELSE j : j \in arts})
                        /\ UNCHANGED <<p, phase, status>>
Stop == /\ phase = 1 /\ status = "optimal" /\ View(q, basis).z < 0
        /\ status' = "infeasible" /\ UNCHANGED <<p, basis, phase, q, rows>>
Next == Work \/ Drive \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Final == status = "infeasible" \/ (phase = 2 /\ status # "run")
Spread(y) == [y EXCEPT !.num = [i \in 1..M |-> IF \E u \in DOMAIN rows : rows[u] = i THEN y.num[CHOOSE u \in DOMAIN rows : rows[u] = i] ELSE 0]]
Safe ==
  /\ status # "unbounded" \/ phase = 2
  /\ status = "infeasible" => ProvesInfeasible(p, Unadjust(p, DualOf(q, basis)))
  /\ (phase = 2 /\ status = "optimal") => LET v == View(q, basis) IN ProvesOptimal(p, BasicX(q, basis, v), Spread(DualOf(q, basis)))
  /\ (phase = 2 /\ status = "unbounded") => LET v == View(q, basis) IN ProvesUnbounded(p, BasicX(q, basis, v), RayOf(q, basis, v))
  /\ Final <=> ~ENABLED Next
Ends == <>Final
=============================================================================
