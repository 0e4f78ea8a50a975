--------------------------- MODULE GenDisjoint ---------------------------
(* Behaviours of DisjointSet, printed as JSON call sequences for the code. *)
(* Random = TRUE draws one call per step (simulation); FALSE tries all.    *)
EXTENDS DisjointSet, TLC, Json
CONSTANTS N, Depth, Random
VARIABLES hist, done
Init == DSInit /\ hist = <<>> /\ done = FALSE
Some == 0..N        \* 0 stands for a name that was never added
Finds == {[op |-> "find", a |-> x, b |-> 0] : x \in Some}
Unions == {[op |-> "union", a |-> a, b |-> b] : a \in Some, b \in Some}
Choices == IF Random THEN {RandomElement(IF RandomElement(1..3) = 1 THEN Finds ELSE Unions)} ELSE Finds \cup Unions
Step == /\ Len(hist) < Depth /\ done' = done
        /\ IF ~alive
           THEN /\ Create([p \in 1..N |-> p], Ok(0))
                /\ hist' = Append(hist, [op |-> "create", a |-> 0, b |-> 0])
           ELSE \E c \in Choices :
                  /\ hist' = Append(hist, c)
                  /\ IF c.op = "find" THEN \E r \in {Error} \cup {Ok(v) : v \in 1..N} : Find(c.a, r)
                     ELSE \E r \in {Error, Ok(0)} : Union(c.a, c.b, r)
Emit == /\ Len(hist) = Depth /\ ~done /\ done' = TRUE
        /\ PrintT("GEN" \o ToJson(hist)) /\ UNCHANGED <<dsvars, hist>>
Spec == Init /\ [][Step \/ Emit]_<<dsvars, hist, done>>
View == <<hist, done>>
=============================================================================
