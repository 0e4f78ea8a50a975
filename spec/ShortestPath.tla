---------------------------- MODULE ShortestPath ----------------------------
(***************************************************************************)
(* The primal-dual shortest path method.  State: the set `reached`, the     *)
(* multiplier of every cut raised so far (as the total `pot` each edge has  *)
(* collected, and their sum `raised`), and the tree of parents.             *)
(***************************************************************************)
EXTENDS UGraphOps, TLC
VARIABLES reached, pot, raised, parent
pvars == <<reached, pot, raised, parent>>

Begin(V, E, s) == reached = {s} /\ pot = [e \in E |-> 0] /\ raised = 0 /\ parent = [x \in V |-> x]
Boundary(E) == UCut(E, reached)
Slack(w, e) == w[e] - pot[e]
Step(E, w) ==
  \E e \in Boundary(E) :
    /\ \A f \in Boundary(E) : Slack(w, e) <= Slack(w, f)
    /\ LET y == CHOOSE a \in e : a \notin reached
           x == CHOOSE a \in e : a \in reached
       IN /\ reached' = reached \cup {y}
          /\ parent' = [parent EXCEPT ![y] = x]
    /\ pot' = [f \in E |-> IF f \in Boundary(E) THEN pot[f] + Slack(w, e) ELSE pot[f]]
    /\ raised' = raised + Slack(w, e)
RECURSIVE PathTo(_, _)
PathTo(s, y) == IF y = s THEN <<>> ELSE Append(PathTo(s, parent[y]), <<parent[y], y>>)
=============================================================================
