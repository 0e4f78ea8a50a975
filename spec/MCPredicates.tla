---------------------------- MODULE MCPredicates ----------------------------
(* The definitions are the right ones: accepted certificates prove what they  *)
(* claim about every small program in standard equality form, a basis has     *)
(* at most one basic solution, and feasible basic solutions are exactly the   *)
(* feasible points that are not between two others of the box.                *)
EXTENDS Predicates
CONSTANTS M, N, Neg, Pos, G
VARIABLES p, ph, y, x, d
vars == <<p, ph, y, x, d>>
Num == (-Neg)..Pos
V(f) == [k |-> "vec", num |-> f, den |-> 1]
Progs == {[m |-> M, n |-> N, s |-> 1, A |-> a, b |-> t, c |-> q, z |-> 0, obj |-> "max", rel |-> [i \in 1..M |-> "="], sgn |-> [j \in 1..N |-> "+"]] :
            a \in [1..M -> [1..N -> Num]], t \in [1..M -> Num], q \in [1..N -> Num]}
Init == p \in Progs /\ ph = 0 /\ y = <<>> /\ x = <<>> /\ d = <<>>
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED p
        /\ y' \in [1..M -> (-G)..G] /\ x' \in [1..N -> 0..G] /\ d' \in [1..N -> (-1)..G]
Spec == Init /\ [][Next]_vars
Box == [1..N -> 0..(G + 1)]
Subs == {B \in [1..M -> 1..N] : Distinct(B)}
Safe == ph = 1 =>
  /\ AcceptsInfeasible(p, V(y)) => \A u \in Box : ~Feasible(p, V(u))
  /\ AcceptsOptimal(p, V(y)) => \A u \in Box : Feasible(p, V(u)) => Dot(p.c, u) <= Dot(y, p.b)
  /\ AcceptsUnbounded(p, V(x), V(d)) => \A t \in 1..3 : LET u == [j \in 1..N |-> x[j] + t * d[j]] IN Feasible(p, V(u)) /\ Dot(p.c, u) > Dot(p.c, x)
  /\ AcceptsUnbounded(p, V(x), V(d)) => ~AcceptsOptimal(p, V(y)) /\ ~AcceptsInfeasible(p, V(y))
  /\ AcceptsInfeasible(p, V(y)) = ProvesInfeasible(p, V(y))
  /\ \A B \in Subs : BasicFor(p, V(x), B) => \A u \in [1..N -> (-1)..G] : BasicFor(p, V(u), B) => u = x
  /\ \A B \in Subs : FeasibleBasicFor(p, V(x), B) =>
        \A u \in [1..N -> (-G)..G] : ~((\E j \in 1..N : u[j] # 0) /\ Feasible(p, V([j \in 1..N |-> x[j] + u[j]])) /\ Feasible(p, V([j \in 1..N |-> x[j] - u[j]])))
=============================================================================
