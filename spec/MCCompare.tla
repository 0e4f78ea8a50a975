----------------------------- MODULE MCCompare ------------------------------
(* The relations are coherent: trichotomy, complements, reflection, monotone  *)
(* in the value; closeness is an interval around the test; integrality        *)
(* repeats with period one and reflects.                                      *)
EXTENDS Compare
CONSTANTS W, D, Es
VARIABLES n, m, t, ph
vars == <<n, m, t, ph>>
Ks(e) == UNION {{g, -g} : g \in UNION {{d * Ten(q), d * Ten(q) + 1} : d \in D, q \in {x \in 0..6 : x + e <= -3}}} \cup {0}
Nums == [w : W \cup {-a : a \in W}, k : {0}, e : {-3}] \cup UNION {[w : W \cup {-a : a \in W}, k : Ks(-e), e : {-e}] : e \in Es}
Init == n \in Nums /\ m = Zero /\ t = Zero /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED n
        /\ t' \in {x \in Nums : x.k = 0 \/ (x.w = 0 /\ n.w = 0 /\ x.e = n.e /\ x.e >= -12 /\ x.e <= -3 /\ Abs(x.k) <= 10000 /\ Abs(n.k) <= 10000)}
        /\ m' \in {x \in Nums : x.e = n.e /\ (t'.k = 0 \/ (x.w = 0 /\ Abs(x.k) <= 10000))}
Spec == Init /\ [][Next]_vars
Neg(x) == [x EXCEPT !.w = -x.w, !.k = -x.k]
One(b) == IF b THEN 1 ELSE 0
(* exact order of two numbers with one exponent, as |k * 10^e| < 1/8 *)
Below(a, b) == a.w < b.w \/ (a.w = b.w /\ a.k <= b.k)
Safe == ph = 1 =>
  /\ One(Holds(n, "<", t)) + One(Holds(n, ">", t)) + One(Close(n, t)) = 1
  /\ Holds(n, "<=", t) = ~Holds(n, ">", t) /\ Holds(n, ">=", t) = ~Holds(n, "<", t)
  /\ \A op \in {"<", "<="} : Holds(n, op, t) = Holds(Neg(n), IF op = "<" THEN ">" ELSE ">=", Neg(t))
  /\ Close(t, t)
  /\ (Below(n, m) /\ Holds(m, "<", t)) => Holds(n, "<", t)
  /\ (Below(n, m) /\ Holds(n, ">", t)) => Holds(m, ">", t)
  /\ Integer(n) = Integer(Neg(n)) /\ Integer(n) = Integer([n EXCEPT !.w = n.w + 4])
  /\ n.w = 0 => (Integer(n) <=> Close(n, Zero))
=============================================================================
