------------------------------- MODULE DGraph -------------------------------
(***************************************************************************)
(* A directed graph with node demands and arc weights, as its edit history *)
(* implies.  n : node -> demand, a : <<u, v>> -> weight (thousandths).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE g

Ok(v) == [k |-> "ok", v |-> v]
Err   == [k |-> "exc", v |-> 0]
Bool(b) == IF b THEN 1 ELSE 0
Extend(f, x, w) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN w ELSE f[y]]
Default(f, x, w) == IF x \in DOMAIN f THEN f ELSE Extend(f, x, w)
Without(f, S) == [y \in DOMAIN f \ S |-> f[y]]
Empty == [n |-> <<>>, a |-> <<>>]
Same == UNCHANGED g

ArcsAt(q, u) == {x \in DOMAIN q.a : x[1] = u \/ x[2] = u}
Arc(q, u, v, w, du, dv) == [n |-> Default(Default(q.n, u, du), v, dv), a |-> Extend(q.a, <<u, v>>, w)]

RECURSIVE AddAdj(_, _), AddArcs(_, _), AddNodes(_, _)
AddAdj(q, s) == IF s = <<>> THEN q ELSE
  LET x == Head(s)[1]  y == Head(s)[2]
      RECURSIVE one(_, _)
      one(p, t) == IF t = <<>> THEN p ELSE one(IF <<x, Head(t)>> \in DOMAIN p.a THEN p ELSE Arc(p, x, Head(t), 0, 0, 0), Tail(t))
  IN AddAdj(IF y = <<>> THEN [q EXCEPT !.n = Default(q.n, x, 0)] ELSE one(q, y), Tail(s))
AddArcs(q, s) == IF s = <<>> THEN q ELSE AddArcs(Arc(q, Head(s)[1], Head(s)[2], Head(s)[3], 0, 0), Tail(s))
AddNodes(q, s) == IF s = <<>> THEN q ELSE AddNodes([q EXCEPT !.n = Extend(q.n, Head(s)[1], Head(s)[2])], Tail(s))
Loops(adj, arcs) == \/ \E p \in DOMAIN adj : \E r \in DOMAIN adj[p][2] : adj[p][2][r] = adj[p][1]
                    \/ \E p \in DOMAIN arcs : arcs[p][1] = arcs[p][2]

New(adj, arcs, nodes, ret) ==
  IF Loops(adj, arcs) THEN ret = Err /\ Same
  ELSE ret = Ok(0) /\ g' = AddNodes(AddArcs(AddAdj(Empty, adj), arcs), nodes)

(* demands: kind "none", "one" (a single number) or "pair", "short" (a 1-tuple) *)
AddArc(u, v, w, dk, d1, d2, ret) ==
  LET newu == u \notin DOMAIN g.n   newv == v \notin DOMAIN g.n
  IN IF <<u, v>> \in DOMAIN g.a \/ u = v \/ (dk \in {"one", "short"} /\ newu /\ newv)
     THEN ret = Err /\ Same
     ELSE /\ ret = Ok(0)
          /\ g' = CASE dk = "none" -> Arc(g, u, v, w, 0, 0)
                    [] dk = "pair" -> Arc(g, u, v, w, d1, d2)
                    [] OTHER       -> Arc(g, u, v, w, d1, d1)
AddNode(u, d, ret) ==
  IF u \in DOMAIN g.n THEN ret = Err /\ Same ELSE ret = Ok(0) /\ g' = [g EXCEPT !.n = Extend(g.n, u, d)]
RemoveArc(u, v, also, ret) ==
  IF <<u, v>> \notin DOMAIN g.a THEN ret = Err /\ Same
  ELSE LET q == [g EXCEPT !.a = Without(g.a, {<<u, v>>})]
       IN /\ ret = Ok(0)
          /\ g' = IF also = 1 THEN [q EXCEPT !.n = Without(q.n, {x \in {u, v} : ArcsAt(q, x) = {}})] ELSE q
SetArc(u, v, w, ret) ==
  IF <<u, v>> \notin DOMAIN g.a THEN ret = Err /\ Same ELSE ret = Ok(0) /\ g' = [g EXCEPT !.a[<<u, v>>] = w]
SetNode(u, d, ret) ==
  IF u \notin DOMAIN g.n THEN ret = Err /\ Same ELSE ret = Ok(0) /\ g' = [g EXCEPT !.n[u] = d]
HasArc(u, v, ret) == Same /\ ret = Ok(Bool(<<u, v>> \in DOMAIN g.a))
HasNode(u, ret) == Same /\ ret = Ok(Bool(u \in DOMAIN g.n))
(* counting questions used between edits *)
Connections(u, ret) == Same /\ ret = Ok(Cardinality(ArcsAt(g, u)))
Scribble(ret) == Same /\ ret = Ok(0)

Act(c, ret) ==
  CASE c.op = "new"     -> New(c.adj, c.arcs, c.nodes, ret)
    [] c.op = "addarc"  -> AddArc(c.u, c.v, c.w, c.dk, c.d1, c.d2, ret)
    [] c.op = "addnode" -> AddNode(c.u, c.w, ret)
    [] c.op = "rmarc"   -> RemoveArc(c.u, c.v, c.w, ret)
    [] c.op = "setarc"  -> SetArc(c.u, c.v, c.w, ret)
    [] c.op = "setnode" -> SetNode(c.u, c.w, ret)
    [] c.op = "hasarc"  -> HasArc(c.u, c.v, ret)
    [] c.op = "hasnode" -> HasNode(c.u, ret)
    [] c.op = "conns"   -> Connections(c.u, ret)
    [] c.op = "scribble" -> Scribble(ret)

Cmd(op, u, v, w) == [op |-> op, u |-> u, v |-> v, w |-> w, dk |-> "none", d1 |-> 0, d2 |-> 0,
                     adj |-> <<>>, arcs |-> <<>>, nodes |-> <<>>]
WellFormed == \A x \in DOMAIN g.a : x[1] # x[2] /\ {x[1], x[2]} \subseteq DOMAIN g.n
=============================================================================
