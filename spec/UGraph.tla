------------------------------- MODULE UGraph -------------------------------
(***************************************************************************)
(* Undirected graphs as independent values.  `store` maps a handle to the  *)
(* graph it names: v : vertex -> weight, e : {a,b} -> weight.  Vertices    *)
(* are numbers in lexical order of their names, weights are integers       *)
(* (thousandths).  Each action carries the result seen by the caller.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE store

Ok(v) == [k |-> "ok", v |-> v]
Err   == [k |-> "exc", v |-> 0]
Bool(b) == IF b THEN 1 ELSE 0
Handles == DOMAIN store
Extend(f, x, w) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN w ELSE f[y]]
Default(f, x, w) == IF x \in DOMAIN f THEN f ELSE Extend(f, x, w)
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
EmptyGraph == [v |-> <<>>, e |-> <<>>]

Put(h, g) == store' = Extend(store, h, g)
Same == UNCHANGED store

WithEdge(g, a, b, w) == [v |-> Default(Default(g.v, a, 0), b, 0), e |-> Extend(g.e, {a, b}, w)]
WithVertex(g, x, w) == [g EXCEPT !.v = Extend(g.v, x, w)]

(* -- construction: adjacency, then edges, then vertices ------------------ *)
RECURSIVE AddAdj(_, _), AddEdges(_, _), AddVerts(_, _)
AddAdj(g, s) == IF s = <<>> THEN g ELSE
  LET x == Head(s)[1]  n == Head(s)[2]  \* vertex, neighbours
      RECURSIVE one(_, _)
      one(q, t) == IF t = <<>> THEN q ELSE
         one(IF {x, Head(t)} \in DOMAIN q.e THEN q ELSE WithEdge(q, x, Head(t), 0), Tail(t))
  IN AddAdj(IF n = <<>> THEN [g EXCEPT !.v = Default(g.v, x, 0)] ELSE one(g, n), Tail(s))
AddEdges(g, s) == IF s = <<>> THEN g ELSE AddEdges(WithEdge(g, Head(s)[1], Head(s)[2], Head(s)[3]), Tail(s))
AddVerts(g, s) == IF s = <<>> THEN g ELSE AddVerts(WithVertex(g, Head(s)[1], Head(s)[2]), Tail(s))

Loops(adj, edges) == \/ \E p \in DOMAIN adj : \E q \in DOMAIN adj[p][2] : adj[p][2][q] = adj[p][1]
                     \/ \E p \in DOMAIN edges : edges[p][1] = edges[p][2]

New(h, adj, edges, verts, ret) ==
  IF Loops(adj, edges) THEN ret = Err /\ Same
  ELSE ret = Ok(0) /\ Put(h, AddVerts(AddEdges(AddAdj(EmptyGraph, adj), edges), verts))

AddEdge(h, a, b, w, ret) ==
  IF w < 0 \/ a = b \/ {a, b} \in DOMAIN store[h].e THEN ret = Err /\ Same
  ELSE ret = Ok(0) /\ Put(h, WithEdge(store[h], a, b, w))
RemoveEdge(h, a, b, ret) ==
  IF {a, b} \notin DOMAIN store[h].e THEN ret = Err /\ Same
  ELSE ret = Ok(0) /\ Put(h, [store[h] EXCEPT !.e = Without(store[h].e, {a, b})])
AddVertex(h, a, w, ret) ==
  IF w < 0 \/ a \in DOMAIN store[h].v THEN ret = Err /\ Same
  ELSE ret = Ok(0) /\ Put(h, WithVertex(store[h], a, w))
SetEdge(h, a, b, w, ret) ==
  IF {a, b} \notin DOMAIN store[h].e THEN ret = Err /\ Same
  ELSE ret = Ok(0) /\ Put(h, [store[h] EXCEPT !.e[{a, b}] = w])
SetVertex(h, a, w, ret) ==
  IF a \notin DOMAIN store[h].v THEN ret = Err /\ Same
  ELSE ret = Ok(0) /\ Put(h, [store[h] EXCEPT !.v[a] = w])
GetEdge(h, a, b, ret) ==
  Same /\ ret = IF {a, b} \in DOMAIN store[h].e THEN Ok(store[h].e[{a, b}]) ELSE Err
GetVertex(h, a, ret) ==
  Same /\ ret = IF a \in DOMAIN store[h].v THEN Ok(store[h].v[a]) ELSE Err
HasEdge(h, a, b, ret) == Same /\ ret = Ok(Bool({a, b} \in DOMAIN store[h].e))
HasVertex(h, a, ret) == Same /\ ret = Ok(Bool(a \in DOMAIN store[h].v))
IsEmpty(h, ret) == Same /\ ret = Ok(Bool(DOMAIN store[h].v = {}))
Copy(h, k, ret) == ret = Ok(0) /\ Put(k, store[h])
Equal(h, k, ret) == Same /\ ret = Ok(Bool(store[h] = store[k]))
(* The caller edits a dictionary it was given: nothing happens to the graph. *)
Scribble(h, ret) == Same /\ ret = Ok(0)
(* the printed form: one line per vertex with its neighbours in lexical order  *)
(* (names: what the vertices are called)                                       *)
Text(h, ret) == Same /\ ret = Ok(0)
RECURSIVE Joined(_, _, _)
Joined(names, S, first) ==
  IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
                         IN (IF first THEN "" ELSE "-") \o names[x] \o Joined(names, S \ {x}, FALSE)
Neighbours(g, x) == {y \in DOMAIN g.v : y # x /\ {x, y} \in DOMAIN g.e}
Printed(g, names) == {names[x] \o ": " \o Joined(names, Neighbours(g, x), TRUE) : x \in DOMAIN g.v}

Act(c, ret) ==
  CASE c.op = "new"      -> New(c.h, c.adj, c.edges, c.verts, ret)
    [] c.op = "addedge"  -> AddEdge(c.h, c.a, c.b, c.w, ret)
    [] c.op = "rmedge"   -> RemoveEdge(c.h, c.a, c.b, ret)
    [] c.op = "addvert"  -> AddVertex(c.h, c.a, c.w, ret)
    [] c.op = "setedge"  -> SetEdge(c.h, c.a, c.b, c.w, ret)
    [] c.op = "setvert"  -> SetVertex(c.h, c.a, c.w, ret)
    [] c.op = "getedge"  -> GetEdge(c.h, c.a, c.b, ret)
    [] c.op = "getvert"  -> GetVertex(c.h, c.a, ret)
    [] c.op = "hasedge"  -> HasEdge(c.h, c.a, c.b, ret)
    [] c.op = "hasvert"  -> HasVertex(c.h, c.a, ret)
    [] c.op = "isempty"  -> IsEmpty(c.h, ret)
    [] c.op = "copy"     -> Copy(c.h, c.b, ret)
    [] c.op = "equal"    -> Equal(c.h, c.b, ret)
    [] c.op = "scribble" -> Scribble(c.h, ret)
    [] c.op = "text"     -> Text(c.h, ret)

Cmd(op, h, a, b, w) == [op |-> op, h |-> h, a |-> a, b |-> b, w |-> w, adj |-> <<>>, edges |-> <<>>, verts |-> <<>>]

(* -- invariants ---------------------------------------------------------- *)
WellFormed ==
  \A h \in Handles : \A x \in DOMAIN store[h].e : Cardinality(x) = 2 /\ x \subseteq DOMAIN store[h].v
=============================================================================
