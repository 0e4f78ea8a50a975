------------------------------ MODULE MCSimplex ------------------------------
(* The simplex machine on every small program and every feasible basis.       *)
EXTENDS Simplex
CONSTANTS M, N, Neg, Pos, Rhs
Vals == -Neg..Pos
VARIABLES p, seen
vars == <<p, basis, status, seen>>
Prog(A, b, c) == [m |-> M, n |-> N, s |-> 1, A |-> A, b |-> b, c |-> c, z |-> 0, obj |-> "max", rel |-> [i \in 1..M |-> "="], sgn |-> [j \in 1..N |-> "+"]]
Init == /\ \E A \in [1..M -> [1..N -> Vals]], b \in [1..M -> Rhs], c \in [1..N -> Vals] : p = Prog(A, b, c)
        /\ basis \in {Sorted(S) : S \in {T \in SUBSET (1..N) : Cardinality(T) = M}}
        /\ Det(BMatrix(p, basis)) # 0 /\ FeasibleView(View(p, basis))
        /\ status = "run" /\ seen = {}
Next == Iterate(p) /\ UNCHANGED p /\ seen' = seen \cup {basis}
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Outcome(v) == /\ status = "optimal" => ProvesOptimal(p, BasicX(p, basis, v), DualOf(p, basis))
              /\ status = "unbounded" => ProvesUnbounded(p, BasicX(p, basis, v), RayOf(p, basis, v))
NoRepeat == status = "run" => basis \notin seen
Safe == /\ LET v == View(p, basis) IN IsBasis(p, basis) /\ FeasibleView(v) /\ Outcome(v)
        /\ NoRepeat
Rising == [][LET v == View(p, basis)  u == View(p, basis') IN RLe(v.z, v.d, u.z, u.d)]_vars
Ends == <>(status # "run")
=============================================================================
