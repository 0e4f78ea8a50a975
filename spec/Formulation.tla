---------------------------- MODULE Formulation -----------------------------
(* What formulations mean.  Expressions are given as a straight-line program *)
(* of nodes [op, a, b, v], each referring to earlier nodes; the meaning of a *)
(* node is a linear form: coefficients by variable and a constant, all over  *)
(* the scale S (numbers v are halves).                                       *)
EXTENDS Integers, Sequences, FiniteSets
S == 4096
Form(cf, k, mn) == [cf |-> cf, k |-> k, mn |-> mn]            \* mn: variables mentioned
Lift(n, f(_)) == [j \in 1..n |-> f(j)]
Plus(n, f, g) == Form([j \in 1..n |-> f.cf[j] + g.cf[j]], f.k + g.k, f.mn \cup g.mn)
Times(n, f, h) == Form([j \in 1..n |-> (f.cf[j] * h) \div 2], (f.k * h) \div 2, f.mn)
Mean(n, nd, fs) ==
  CASE nd.op = "var" -> Form([j \in 1..n |-> IF j = nd.a THEN S ELSE 0], 0, {nd.a})
    [] nd.op = "num" -> Form([j \in 1..n |-> 0], nd.v * (S \div 2), {})
    [] nd.op = "add" -> Plus(n, fs[nd.a], fs[nd.b])
    [] nd.op = "sub" -> Plus(n, fs[nd.a], Times(n, fs[nd.b], -2))
    [] nd.op = "neg" -> Times(n, fs[nd.a], -2)
    [] nd.op = "pos" -> fs[nd.a]
    [] nd.op = "mul" -> Times(n, fs[nd.a], nd.v)
RECURSIVE Means(_, _, _)
Means(n, nds, fs) == IF Len(fs) = Len(nds) THEN fs ELSE Means(n, nds, Append(fs, Mean(n, nds[Len(fs) + 1], fs)))

(* which uses have a meaning: operands are expressions, numbers or something else *)
Meaningful(op, ta, tb) ==
  CASE op \in {"add", "sub"} -> {ta, tb} \subseteq {"expr", "num"}
    [] op = "mul" -> {ta, tb} \in {{"expr", "num"}, {"num"}}
    [] op = "compare" -> {ta, tb} \in {{"expr", "num"}, {"expr"}}
    [] op = "index" -> ta = "positive"
    [] op = "rows" -> ta = "some"
    [] op = "objective" -> ta \in {"expr", "num"}

(* the row of the comparison  f rel g  *)
RowOf(n, f, g) == Plus(n, f, Times(n, g, -2))        \* (row) x rel -(constant)
Mirror(r) == CASE r = "<=" -> ">=" [] r = ">=" -> "<=" [] r = "=" -> "="

(* -- sign declarations ----------------------------------------------------- *)
(* d maps each variable to "f", "+" or "-"; a declaration names a variable    *)
(* (or 0: all of them) and a sign.                                            *)
Covered(n, dc) == IF dc.j = 0 THEN 1..n ELSE {dc.j}
Count(n, ds, j) == Cardinality({u \in DOMAIN ds : j \in Covered(n, ds[u])})
Accepts(n, d, ds) == \A j \in 1..n : Count(n, ds, j) + (IF d[j] = "f" THEN 0 ELSE 1) <= 1
Declared(n, d, ds) == [j \in 1..n |-> IF Count(n, ds, j) = 0 THEN d[j]
                                      ELSE LET u == CHOOSE u \in DOMAIN ds : j \in Covered(n, ds[u]) IN ds[u].s]
Undeclared(n, d) == \A j \in 1..n : d[j] = "f"
=============================================================================
