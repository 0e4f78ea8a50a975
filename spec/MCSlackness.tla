----------------------------- MODULE MCSlackness -----------------------------
(* Every small program, every feasible point and every dual feasible point on  *)
(* a grid: the conditions all hold exactly when the pair proves optimality     *)
(* (the theorem that makes the list worth printing), and no condition can be   *)
(* left out in general (Needed is not an invariant: it is what each instance   *)
(* that satisfies all conditions but one must show to be non-optimal).         *)
EXTENDS Slackness
CONSTANTS M, N, Neg, Pos, G, Rels, Signs
Vals == (-Neg)..Pos
Grid == (-G)..G
VARIABLES p, ph
Init == /\ \E A \in [1..M -> [1..N -> Vals]], b \in [1..M -> Vals], c \in [1..N -> Vals], o \in {"max", "min"}, r \in [1..M -> Rels], g \in [1..N -> Signs] :
             p = [m |-> M, n |-> N, s |-> 1, A |-> A, b |-> b, c |-> c, z |-> 1, obj |-> o, rel |-> r, sgn |-> g]
        /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, ph>>
Vec(x) == [k |-> "vec", num |-> x, den |-> 1]
X == {x \in {Vec(u) : u \in [1..N -> Grid]} : Feasible(p, x)}
Y == {y \in {Vec(u) : u \in [1..M -> Grid]} : DualFeasible(p, y)}
Theorem == \A x \in X, y \in Y : (\A c \in Conditions(p) : Holds(c, x, y)) <=> ProvesOptimal(p, x, y)
Needed == \A x \in X, y \in Y, c \in Conditions(p) :
            (~Holds(c, x, y) /\ \A e \in Conditions(p) \ {c} : Holds(e, x, y)) => ~ProvesOptimal(p, x, y)
(* the conditions of the dual are the same conditions with the roles exchanged *)
Mirror == Conditions(Dual(p)) = {[c EXCEPT !.k = IF c.k = "row" THEN "var" ELSE "row"] : c \in Conditions(p)}
Safe == ph = 1 => Theorem /\ Needed /\ Mirror
=============================================================================
