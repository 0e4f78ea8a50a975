----------------------------- MODULE UGraphOps -----------------------------
(***************************************************************************)
(* Graph theory of undirected and directed graphs given as data:           *)
(* vertices V (a set), E a set of two-element sets, A a set of pairs.       *)
(* Pure definitions, the reference all graph properties are stated in.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

(* -- boundary operators (G02) ------------------------------------------- *)
UCut(E, S) == {e \in E : Cardinality(e \cap S) = 1}
OutCut(A, S) == {a \in A : a[1] \in S /\ a[2] \notin S}
InCut(A, S) == {a \in A : a[2] \in S /\ a[1] \notin S}

(* -- connectivity --------------------------------------------------------- *)
Nbr(E, x) == {y \in UNION E : y # x /\ {x, y} \in E}
RECURSIVE Grow(_, _)
Grow(E, S) == LET T == S \cup UNION {Nbr(E, x) : x \in S} IN IF T = S THEN S ELSE Grow(E, T)
Component(E, x) == Grow(E, {x})
Components(V, E) == {Component(E, x) : x \in V}
Connected(V, E) == V # {} /\ \A x \in V : Component(E, x) = V
(* a cycle exists exactly when some edge lies on one, i.e. its removal keeps its ends connected *)
Cyclic(E) == \E e \in E : \E x \in e : e \subseteq Component(E \ {e}, x)
Tree(V, E) == Connected(V, E) /\ ~Cyclic(E)

(* -- distances (G04): w maps each edge to a weight >= 0 -------------------- *)
Inf == 1000000000
RECURSIVE Relax(_, _, _, _)
Relax(V, E, w, d) ==
  LET step == [y \in V |->
        LET via == {d[x] + w[{x, y}] : x \in {z \in Nbr(E, y) : d[z] < Inf}} \cup {d[y]}
        IN CHOOSE m \in via : \A k \in via : m <= k]
  IN IF step = d THEN d ELSE Relax(V, E, w, step)
Distances(V, E, w, s) == Relax(V, E, w, [y \in V |-> IF y = s THEN 0 ELSE Inf])
(* p is a sequence of directed steps <<from, to>> *)
IsWalk(E, p, s, t) ==
  /\ \A k \in DOMAIN p : {p[k][1], p[k][2]} \in E
  /\ IF Len(p) = 0 THEN s = t
     ELSE p[1][1] = s /\ p[Len(p)][2] = t /\ \A k \in 1..(Len(p) - 1) : p[k][2] = p[k + 1][1]
RECURSIVE WalkWeight(_, _)
WalkWeight(w, p) == IF Len(p) = 0 THEN 0 ELSE w[{p[Len(p)][1], p[Len(p)][2]}] + WalkWeight(w, SubSeq(p, 1, Len(p) - 1))

(* -- stable sets (G05) ------------------------------------------------------ *)
Stable(E, S) == \A e \in E : ~(e \subseteq S)

(* -- flows (G07, G08): cap and flow map arcs to numbers --------------------- *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET a == CHOOSE b \in S : TRUE IN f[a] + SumOver(f, S \ {a})
Out(A, x) == {a \in A : a[1] = x}
In(A, x) == {a \in A : a[2] = x}
Excess(A, f, x) == SumOver(f, In(A, x)) - SumOver(f, Out(A, x))
WithinCapacity(A, cap, f) == \A a \in A : f[a] >= 0 /\ f[a] <= cap[a]
Conserved(V, A, f, s, t) == \A x \in V \ {s, t} : Excess(A, f, x) = 0
FlowValue(A, f, s) == -Excess(A, f, s)
CutCapacity(A, cap, S) == SumOver(cap, OutCut(A, S))
(* capacity of every cut separating s from t is at least k, and one attains it *)
IsMinCut(V, A, cap, s, t, k) ==
  LET Caps == {CutCapacity(A, cap, S \cup {s}) : S \in SUBSET (V \ {s, t})}
  IN k \in Caps /\ \A c \in Caps : k <= c
ResidualCap(A, cap, f, u, v) ==
  (IF <<u, v>> \in A THEN cap[<<u, v>>] - f[<<u, v>>] ELSE 0) + (IF <<v, u>> \in A THEN f[<<v, u>>] ELSE 0)
=============================================================================
