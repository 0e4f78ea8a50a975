----------------------------- MODULE Traversal -----------------------------
(***************************************************************************)
(* Walking an undirected graph.  State: the vertices already given out,     *)
(* the queue (breadth first: found but not yet given out, oldest first) and *)
(* the stack (depth first: the current branch).  rank[x] orders the         *)
(* neighbours found together; equal ranks may come in any order.            *)
(***************************************************************************)
EXTENDS UGraphOps, TLC

VARIABLES seen, queue, stack, walk     \* walk: the sequence given out so far
tvars == <<seen, queue, stack, walk>>

Range(s) == {s[p] : p \in DOMAIN s}

Start == seen = {} /\ queue = <<>> /\ stack = <<>> /\ walk = <<>>

(* -- breadth first: queue holds layers of ties: a sequence of sets ------- *)
(* Neighbours found together form groups of equal rank, ascending.          *)
Groups(S, rank) ==
  LET Rs == {rank[x] : x \in S}
      RECURSIVE go(_)
      go(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE a \in T : \A b \in T : a <= b
                                        IN <<{x \in S : rank[x] = m}>> \o go(T \ {m})
  IN go(Rs)
Found(s) == UNION Range(s)
VisitBfs(E, rank, start, v) ==
  LET q == IF walk = <<>> THEN <<{start}>> ELSE queue
  IN /\ q # <<>> /\ v \in q[1]
     /\ seen' = seen \cup {v} /\ walk' = Append(walk, v)
     /\ queue' = LET rest == IF q[1] = {v} THEN Tail(q) ELSE <<q[1] \ {v}>> \o Tail(q)
                     fresh == Nbr(E, v) \ (seen \cup {v} \cup Found(rest))
                 IN rest \o Groups(fresh, rank)
     /\ UNCHANGED stack

(* -- depth first: continue from the newest vertex with an unseen neighbour - *)
RECURSIVE Unwind(_, _, _)
Unwind(E, s, done) == IF s = <<>> THEN <<>> ELSE IF Nbr(E, s[Len(s)]) \ done = {} THEN Unwind(E, SubSeq(s, 1, Len(s) - 1), done) ELSE s
VisitDfs(E, start, v) ==
  LET s == Unwind(E, stack, seen)
  IN /\ IF walk = <<>> THEN v = start ELSE s # <<>> /\ v \in Nbr(E, s[Len(s)]) \ seen
     /\ seen' = seen \cup {v} /\ walk' = Append(walk, v)
     /\ stack' = Append(s, v)
     /\ UNCHANGED queue

VisitAny(V, v) ==
  /\ v \in V \ seen
  /\ seen' = seen \cup {v} /\ walk' = Append(walk, v)
  /\ UNCHANGED <<queue, stack>>

Finished(method, V, E, start) ==
  CASE method = "bfs" -> walk # <<>> /\ queue = <<>>
    [] method = "dfs" -> walk # <<>> /\ Unwind(E, stack, seen) = <<>>
    [] method = "rng" -> seen = V
=============================================================================
