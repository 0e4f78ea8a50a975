------------------------------- MODULE Branch -------------------------------
(* Integer programs: a linear program p, and the set I of variables that     *)
(* must be integral.  An outcome of branch and bound is proved by a          *)
(* certificate: an incumbent (or none) and a tree of integral branchings     *)
(* whose leaves each come with a proof, about the linear relaxation there,   *)
(* that the leaf is empty or holds nothing better than the incumbent.        *)
EXTENDS LP

(* p with the bounds bs = <<variable, relation, integer>> as further rows *)
WithBounds(p, bs) ==
  [p EXCEPT !.m = p.m + Len(bs),
            !.A = p.A \o [u \in DOMAIN bs |-> [j \in 1..p.n |-> IF j = bs[u][1] THEN p.s ELSE 0]],
            !.b = p.b \o [u \in DOMAIN bs |-> bs[u][3] * p.s],
            !.rel = p.rel \o [u \in DOMAIN bs |-> bs[u][2]]]

IntegralOn(x, I) == \A j \in I : x.num[j] % x.den = 0
IPoint(p, I, x) == IsVec(x, p.n) /\ Feasible(p, x) /\ IntegralOn(x, I)
(* value v is better than value u *)
Better(p, v, u) == IF p.obj = "max" THEN RLt(u[1], u[2], v[1], v[2]) ELSE RLt(v[1], v[2], u[1], u[2])

(* nothing better than `best` (a singleton value or the empty set) satisfies p and the bounds bs *)
RECURSIVE Excluded(_, _, _, _, _)
Excluded(p, I, bs, t, best) ==
  IF t.k = "leaf"
  THEN LET q == WithBounds(p, bs) IN
       /\ t.w.kind \in {"infeasible", "optimal"}
       /\ Witnesses(q, t.w)
       /\ t.w.kind = "optimal" => \E u \in best : ~Better(p, OptimalValue(q, t.w), u)
  ELSE /\ t.k = "branch" /\ t.j \in I
       /\ Excluded(p, I, Append(bs, <<t.j, "<=", t.v>>), t.lo, best)
       /\ Excluded(p, I, Append(bs, <<t.j, ">=", t.v + 1>>), t.hi, best)

(* cert.x is "none" or an optimal integer point *)
Certifies(p, I, cert) ==
  IF cert.x.k = "none" THEN Excluded(p, I, <<>>, cert.tree, {})
  ELSE IPoint(p, I, cert.x) /\ Excluded(p, I, <<>>, cert.tree, {Value(p, cert.x)})

(* the answer x agrees with what the certificate proves *)
Answers(p, I, cert, x) ==
  IF cert.x.k = "none" THEN x.k = "none"
  ELSE IPoint(p, I, x) /\ Value(p, x) = Value(p, cert.x)
=============================================================================
