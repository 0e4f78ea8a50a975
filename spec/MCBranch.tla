------------------------------ MODULE MCBranch ------------------------------
(* Branch and bound on every small program with two variables in a box:      *)
(* open nodes are taken in any order, any optimal vertex of the relaxation   *)
(* and any fractional variable may be used, and nodes that cannot beat the   *)
(* incumbent may be pruned or not.  It ends, with an optimum exactly when    *)
(* there is an integer point; no integer point is ever lost on the way.      *)
EXTENDS Branch
CONSTANTS Neg, Pos, Rhs, U, Rels, Signs
VARIABLES p, I, open, best
vars == <<p, I, open, best>>
Num == (-Neg)..Pos
V(f, d) == [k |-> "vec", num |-> f, den |-> d]
BoxOf(s, j) == CASE s[j] = "+" -> <<0, U>> [] s[j] = "-" -> <<-U, 0>> [] s[j] = "f" -> <<-1, U - 1>>
Init ==
  /\ \E a, c \in [1..2 -> Num], t \in Rhs, o \in {"max", "min"}, r \in Rels, s \in [1..2 -> Signs] :
        p = [m |-> 1, n |-> 2, s |-> 1, A |-> <<a>>, b |-> <<t>>, c |-> c, z |-> 0, obj |-> o, rel |-> <<r>>, sgn |-> s]
  /\ I \in SUBSET {1, 2}
  /\ open = {<<BoxOf(p.sgn, 1), BoxOf(p.sgn, 2)>>}
  /\ best = {}

(* vertices of the relaxation in a node: intersections of two tight constraints.  *)
(* Lines u x + v y = w.                                                            *)
Lines(nd) == {<<p.A[1][1], p.A[1][2], p.b[1]>>} \cup {<<1, 0, nd[1][k]>> : k \in 1..2} \cup {<<0, 1, nd[2][k]>> : k \in 1..2}
Cross(g, h) == LET d == g[1] * h[2] - g[2] * h[1]
                   x == g[3] * h[2] - g[2] * h[3]
                   y == g[1] * h[3] - g[3] * h[1]
               IN IF d = 0 THEN {} ELSE {IF d > 0 THEN V(<<x, y>>, d) ELSE V(<<-x, -y>>, -d)}
In(nd, x) == \A j \in 1..2 : nd[j][1] * x.den <= x.num[j] /\ x.num[j] <= nd[j][2] * x.den
Vertices(nd) == {x \in UNION {Cross(g, h) : g, h \in Lines(nd)} : In(nd, x) /\ RowsHold(p, x)}
Optima(nd) == LET W == Vertices(nd) IN {x \in W : \A y \in W : ~Better(p, Value(p, y), Value(p, x))}

Beaten(x) == \E y \in best : ~Better(p, Value(p, x), Value(p, y))
Discard(nd) == /\ Optima(nd) = {} \/ \E x \in Optima(nd) : Beaten(x)
               /\ open' = open \ {nd} /\ UNCHANGED <<p, I, best>>
Accept(nd) == \E x \in Optima(nd) :
  /\ IntegralOn(x, I)
  /\ best' = (IF Beaten(x) THEN best ELSE {x}) /\ open' = open \ {nd} /\ UNCHANGED <<p, I>>
Split(nd) == \E x \in Optima(nd) : \E j \in I :
  /\ x.num[j] % x.den # 0
  /\ LET f == x.num[j] \div x.den
     IN open' = (open \ {nd}) \cup {[nd EXCEPT ![j] = <<nd[j][1], f>>], [nd EXCEPT ![j] = <<f + 1, nd[j][2]>>]}
  /\ UNCHANGED <<p, I, best>>
Next == \E nd \in open : Discard(nd) \/ Accept(nd) \/ Split(nd)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the integer points; with a continuous variable, it suffices to look at the ends of each fibre *)
Root == <<BoxOf(p.sgn, 1), BoxOf(p.sgn, 2)>>
Fix(nd, j, v) == [nd EXCEPT ![j] = <<v, v>>]
Fibres == CASE I = {} -> {Root}
            [] I = {1} -> {Fix(Root, 1, v) : v \in Root[1][1]..Root[1][2]}
            [] I = {2} -> {Fix(Root, 2, v) : v \in Root[2][1]..Root[2][2]}
            [] OTHER -> {Fix(Fix(Root, 1, v), 2, w) : v \in Root[1][1]..Root[1][2], w \in Root[2][1]..Root[2][2]}
Candidates == UNION {Optima(nd) : nd \in Fibres}

Safe ==
  /\ \A x \in best : IPoint(p, I, x)
  /\ \A x \in Candidates : IPoint(p, I, x) /\ (Beaten(x) \/ \E nd \in open : In(nd, x))
  /\ open = {} => (best = {} <=> Candidates = {})
Ends == <>(open = {})
=============================================================================
