--------------------------- MODULE MCFormulation ----------------------------
(* Linear forms are the meaning of expressions: every node's form evaluates,  *)
(* at every point, to the number the expression has there; a comparison holds *)
(* at a point exactly when its row does, in either orientation.  Declarations *)
(* never overwrite one another, and their order does not matter.              *)
EXTENDS Formulation
CONSTANTS N, Depth, Nums, G
VARIABLES nds, vals, fs, d, log
vars == <<nds, vals, fs, d, log>>
Points == [1..N -> 0..G]
Nd(op, a, b, v) == [op |-> op, a |-> a, b |-> b, v |-> v]
Halves == Nums \cup {-v : v \in Nums}
(* the number of node nd at every point, twice per level of halving avoided by scaling *)
Num(nd, pt) == CASE nd.op = "var" -> S * pt[nd.a] [] nd.op = "num" -> nd.v * (S \div 2)
                 [] nd.op = "add" -> vals[nd.a][pt] + vals[nd.b][pt] [] nd.op = "sub" -> vals[nd.a][pt] - vals[nd.b][pt]
                 [] nd.op = "neg" -> -vals[nd.a][pt] [] nd.op = "pos" -> vals[nd.a][pt] [] nd.op = "mul" -> (vals[nd.a][pt] * nd.v) \div 2
Init == nds = <<>> /\ vals = <<>> /\ fs = <<>> /\ d = [j \in 1..N |-> "f"] /\ log = <<>>
Nodes == {Nd("var", j, 0, 0) : j \in 1..N} \cup {Nd("num", 0, 0, v) : v \in Halves}
         \cup {Nd(op, a, b, 0) : op \in {"add", "sub"}, a \in DOMAIN nds, b \in DOMAIN nds}
         \cup {Nd(op, a, 0, 0) : op \in {"neg", "pos"}, a \in DOMAIN nds} \cup {Nd("mul", a, 0, v) : a \in DOMAIN nds, v \in Halves}
Extend == /\ Len(nds) < Depth /\ log = <<>>
          /\ \E nd \in Nodes : /\ nds' = Append(nds, nd) /\ vals' = Append(vals, [pt \in Points |-> Num(nd, pt)])
                               /\ fs' = Append(fs, Mean(N, nd, fs))
          /\ UNCHANGED <<d, log>>
Decls == [j : 0..N, s : {"+", "-"}]
Declare == /\ nds = <<>> /\ Len(log) < 3
           /\ \E ds \in {<<a>> : a \in Decls} \cup {<<a, b>> : a, b \in Decls} :
                IF Accepts(N, d, ds) THEN d' = Declared(N, d, ds) /\ log' = Append(log, ds) ELSE UNCHANGED <<d, log>>
           /\ UNCHANGED <<nds, vals, fs>>
Next == Extend \/ Declare
Spec == Init /\ [][Next]_vars
RECURSIVE Ev(_, _, _)
Ev(f, pt, j) == IF j = 0 THEN f.k ELSE f.cf[j] * pt[j] + Ev(f, pt, j - 1)
Rel(r, x, y) == CASE r = "<=" -> x <= y [] r = ">=" -> x >= y [] r = "=" -> x = y
Safe ==
  /\ \A u \in DOMAIN nds : \A pt \in Points : Ev(fs[u], pt, N) = vals[u][pt]
  /\ fs = Means(N, nds, <<>>)
  /\ \A u \in DOMAIN nds : {j \in 1..N : fs[u].cf[j] # 0} \subseteq fs[u].mn
  /\ \A u, w \in DOMAIN nds : LET r == RowOf(N, fs[u], fs[w])  q == RowOf(N, fs[w], fs[u]) IN
       \A pt \in Points, rel \in {"<=", ">=", "="} :
          /\ Rel(rel, vals[u][pt], vals[w][pt]) = Rel(rel, Ev([r EXCEPT !.k = 0], pt, N), -r.k)
          /\ Rel(rel, vals[u][pt], vals[w][pt]) = Rel(Mirror(rel), Ev([q EXCEPT !.k = 0], pt, N), -q.k)
  /\ \A j \in 1..N : LET by == {u \in DOMAIN log : \E k \in DOMAIN log[u] : j \in Covered(N, log[u][k])}
                     IN IF by = {} THEN d[j] = "f" ELSE Cardinality(by) = 1 /\ \E u \in by : \E k \in DOMAIN log[u] : j \in Covered(N, log[u][k]) /\ log[u][k].s = d[j]
(* one declaration at a time or all at once *)
Once == \A u \in DOMAIN log : Len(log[u]) = 2 =>
          LET f == [j \in 1..N |-> "f"]  a == <<log[u][1]>>  b == <<log[u][2]>>
          IN Accepts(N, f, a) /\ Accepts(N, Declared(N, f, a), b) /\ Declared(N, Declared(N, f, a), b) = Declared(N, f, log[u])
KeepsSigns == [][\A j \in 1..N : d[j] # "f" => d'[j] = d[j]]_vars
=============================================================================
