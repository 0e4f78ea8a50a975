----------------------------- MODULE MCDescent ------------------------------
(* Steepest descent on every small problem: the closed form of sufficient     *)
(* decrease used by the specification is its definition in terms of f; the    *)
(* length is the first of the sequence that satisfies it; f strictly improves  *)
(* until the gradient vanishes, which happens at the optimum only.            *)
EXTENDS Descent
CONSTANTS Diag, Off, G, Most, Cs
VARIABLES r, sc, x, k
vars == <<r, sc, x, k>>
Pos(Q) == Q[1][1] > 0 /\ Q[1][1] * Q[2][2] > Q[1][2] * Q[2][1]
Init ==
  /\ \E a, b \in Diag, o \in Off \cup {-t : t \in Off}, u, v \in (-G)..G, s \in {1, -1}, cn \in Cs, al \in {<<1, 1>>, <<2, 1>>, <<1, 2>>}, pd \in {2, 4} :
       LET Q == <<<<s * a, s * o>>, <<s * o, s * b>>>> IN
       /\ Pos(<<<<a, o>>, <<o, b>>>>)
       /\ r = [n |-> 2, Q |-> Q, q |-> <<u, v>>, sg |-> s, al |-> al, pd |-> pd, c |-> <<cn, 4>>]
  /\ sc = 1 /\ x \in [1..2 -> (-G)..G] /\ k = 0
At(an, ad) == LET g == Grad(r, sc, x) IN [j \in 1..2 |-> x[j] * ad - r.sg * an * g[j]]      \* over sc * ad
Next ==
  /\ k < Most /\ k' = k + 1 /\ r' = r
  /\ LET ad == Length(r, Grad(r, sc, x)) IN sc' = sc * ad /\ x' = At(r.al[1], ad)
Spec == Init /\ [][Next]_vars
Ends == {<<u, v>> : u, v \in (-G)..G}
Def(an, ad) == LET g == Grad(r, sc, x) IN      \* the condition, times 2 (sc ad)^2 c[2]
  r.sg * F2(r, sc * ad, At(an, ad)) * r.c[2] <= r.sg * F2(r, sc, x) * ad * ad * r.c[2] - 2 * r.c[1] * an * ad * D(g, g)
Table(g) == [e \in 1..12 |-> IF Enough(r, g, r.al[1], r.al[2] * r.pd ^ (e - 1)) THEN 1 ELSE 0]
Safe == k < Most =>
  LET g == Grad(r, sc, x)  an == r.al[1]  ad == Length(r, g) IN
  /\ \A t \in {1, 2, 4, 8} : Def(an, t) = Enough(r, g, an, t)
  /\ Def(an, ad) /\ (ad = r.al[2] \/ ~Def(an, ad \div r.pd))
  /\ Steps(r, sc * ad, [j \in 1..2 |-> x[j] * ad], At(an, ad))
  /\ g # <<0, 0>> => r.sg * F2(r, sc * ad, At(an, ad)) < r.sg * F2(r, sc, x) * ad * ad
  /\ g = <<0, 0>> => \A y \in Ends : r.sg * F2(r, sc, [j \in 1..2 |-> y[j] * sc]) >= r.sg * F2(r, sc, x)
  /\ \A e \in 1..8 : Chosen(Table(g), {e}) <=> ad = r.al[2] * r.pd ^ (e - 1)      \* tables decide the same step
  /\ Within(r, sc, x, <<0, 1>>) <=> g = <<0, 0>>
=============================================================================
