------------------------------ MODULE MCStable ------------------------------
(* The formulation itself, over every graph on N vertices with weights 0..W: *)
(* rows x_u + x_v <= 1 per edge and x_v <= 1 per vertex.  One state per       *)
(* graph; vertices are assigned by choosing or refusing each in turn, and     *)
(* what is feasible and best at the end is stable and heaviest.               *)
EXTENDS UGraphOps, LP, TLC, SequencesExt, FiniteSetsExt
CONSTANTS N, W
VARIABLES E, w, x
vars == <<E, w, x>>
V == 1..N
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
Program ==
  LET es == SetToSeq(E)  m == Len(es) + N IN
  [m |-> m, n |-> N, s |-> 1, obj |-> "max", z |-> 0, c |-> w, rel |-> [q \in 1..m |-> "<="], sgn |-> [j \in V |-> "+"],
   b |-> [q \in 1..m |-> 1],
   A |-> [q \in 1..m |-> [j \in V |-> IF q <= Len(es) THEN (IF j \in es[q] THEN 1 ELSE 0) ELSE (IF j = q - Len(es) THEN 1 ELSE 0)]]]
Init == E \in SUBSET AllEdges /\ w \in [V -> 0..W] /\ x = <<>>
Next == /\ Len(x) < N /\ \E v \in -1..2 : x' = Append(x, v)
        /\ UNCHANGED <<E, w>>
Spec == Init /\ [][Next]_vars
Vec(xs) == [k |-> "vec", num |-> xs, den |-> 1]
Chosen == {v \in V : x[v] = 1}
Safe == Len(x) = N =>
  /\ Feasible(Program, Vec(x)) <=> ((\A v \in V : x[v] \in {0, 1}) /\ Stable(E, Chosen))
  /\ Feasible(Program, Vec(x)) => Value(Program, Vec(x)) = Norm(MapThenSumSet(LAMBDA v : w[v], Chosen), 1)
=============================================================================
