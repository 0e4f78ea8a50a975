------------------------------- MODULE OneStep -------------------------------
(* Skeleton of trace specifications whose records are single operations:    *)
(* record i is decided in the one step l = 0 -> 1, printing the clauses of   *)
(* the specification that refuse it.  Instantiated with Failing(r), the set  *)
(* of refusing clauses of record r.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
CONSTANTS Recs, Failing(_)
TraceInit == i \in 1..Len(Recs) /\ l = 0
TraceNext ==
  /\ l = 0 /\ l' = 1 /\ UNCHANGED i
  /\ LET f == Failing(Recs[i])
     IN IF f = {} THEN TRUE ELSE PrintT("FAIL" \o ToJson([i |-> i, l |-> 0, c |-> SetToSeq(f)]))
TraceSpec == TraceInit /\ [][TraceNext]_<<i, l>>
=============================================================================
