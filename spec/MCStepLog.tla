------------------------------ MODULE MCStepLog ------------------------------
(* Up to Slots programs with logs over a few steps: queries append on request,  *)
(* in-place operations append to the receiver, others give a program whose log   *)
(* continues the receiver's, clearing empties one log.  Logs never lose or       *)
(* reorder a step, and one operation changes at most one existing log.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Slots, Steps, MaxLen
VARIABLES logs, last
vars == <<logs, last>>
Runs == UNION {[1..k -> Steps] : k \in 0..2}
Init == logs = << <<>> >> /\ last = <<"new", 1>>
Ask(r, s, show) == logs' = [logs EXCEPT ![r] = @ \o (IF show THEN s ELSE <<>>)] /\ last' = <<"ask", r>>
Make(r, s, show) == Len(logs) < Slots /\ logs' = Append(logs, logs[r] \o (IF show THEN s ELSE <<>>)) /\ last' = <<"make", r>>
Clear(r) == logs' = [logs EXCEPT ![r] = <<>>] /\ last' = <<"clear", r>>
Cleared(r) == Len(logs) < Slots /\ logs' = Append(logs, <<>>) /\ last' = <<"cleared", r>>
Fail(r) == \E s \in Runs : logs' = [logs EXCEPT ![r] = @ \o s] /\ last' = <<"fail", r>>
Next == \E r \in DOMAIN logs :
          \/ \E s \in Runs, show \in BOOLEAN : Ask(r, s, show) \/ Make(r, s, show)
          \/ Clear(r) \/ Cleared(r) \/ Fail(r)
Spec == Init /\ [][Next]_vars
Bound == \A j \in DOMAIN logs : Len(logs[j]) <= MaxLen
(* only the receiver of an operation in place (or a query) may change, and only by growing, unless it is cleared *)
OneAtATime == [][\A j \in DOMAIN logs : logs'[j] = logs[j] \/ (j = last'[2] /\ last'[1] \in {"ask", "fail", "clear"})]_vars
AppendOnly == [][\A j \in DOMAIN logs : last'[1] = "clear" \/ IsPrefix(logs[j], logs'[j])]_vars
Inherit == [][last'[1] = "make" => IsPrefix(logs[last'[2]], Last(logs'))]_vars
=============================================================================
