------------------------------ MODULE TwoPhase ------------------------------
(***************************************************************************)
(* The two-phase method: phase one maximises minus the sum of artificials of *)
(* the sign-adjusted program from the artificial basis; if artificials keep   *)
(* a positive sum the program is infeasible, otherwise artificials are        *)
(* exchanged for columns of the program (or their rows are redundant and      *)
(* dropped) and phase two runs Bland's method from there.                    *)
(***************************************************************************)
EXTENDS Simplex

Adjusted(p) == [p EXCEPT !.A = [i \in 1..p.m |-> [j \in 1..p.n |-> IF p.b[i] < 0 THEN -p.A[i][j] ELSE p.A[i][j]]],
                         !.b = [i \in 1..p.m |-> RAbs(p.b[i])]]
Auxiliary(p) == LET q == Adjusted(p) IN
  [q EXCEPT !.n = p.n + p.m, !.z = 0, !.sgn = [j \in 1..(p.n + p.m) |-> "+"],
            !.A = [i \in 1..p.m |-> q.A[i] \o [k \in 1..p.m |-> IF k = i THEN p.s ELSE 0]],
            !.c = [j \in 1..(p.n + p.m) |-> IF j <= p.n THEN 0 ELSE -p.s]]
ArtificialBasis(p) == [k \in 1..p.m |-> p.n + k]
(* y of the adjusted rows, in terms of the original ones *)
Unadjust(p, y) == [y EXCEPT !.num = [i \in 1..p.m |-> IF p.b[i] < 0 THEN -y.num[i] ELSE y.num[i]]]
(* rows i whose artificial cannot be driven out: their view row vanishes on the columns of p *)
DropRows(p, R) == LET keep == Sorted((1..p.m) \ R) IN
  [p EXCEPT !.m = Len(keep), !.A = [k \in DOMAIN keep |-> p.A[keep[k]]], !.b = [k \in DOMAIN keep |-> p.b[keep[k]]], !.rel = [k \in DOMAIN keep |-> "="]]
=============================================================================
