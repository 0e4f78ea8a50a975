----------------------------- MODULE TraceStepLog -----------------------------
(* L16: recorded histories of operations on programs and their step logs.        *)
(* Record: init (number of programs), ev: [op, r, inp, show, k, logs (all logs     *)
(* afterwards, as step identities; a new program's last), suf (the steps beyond     *)
(* the receiver's old log), p (the receiver before), x, B, res, first, ans, txt].   *)
EXTENDS StepLog, TLC, Json, IOUtils
VARIABLES i, l, lg
vars == <<i, l, lg>>
Recs == ndJsonDeserialize(IOEnv.TRACE)
Makers == {"copy", "canon", "sef", "iter", "clear", "row", "var"}
Adds(e) == e.k = "ok" /\ e.inp = 0 /\ e.op \in Makers
Told(e) == e.op \in {"feas", "value", "unb", "basic", "canon", "iter", "sef", "simplex", "two", "solve"}
Story(e) ==
  CASE e.op = "feas" -> FeasOk(e.p, e.x, e.suf) /\ e.ans = (IF Feasible(e.p, e.x) THEN 1 ELSE 0)
    [] e.op = "value" -> FeasOk(e.p, e.x, e.suf)
    [] e.op = "unb" -> FeasOk(e.p, e.x, e.suf)
    [] e.op = "basic" -> BasicOk(e.p, e.x, e.B, e.suf) /\ e.ans = (IF IsBasicSolution(e.p, e.x, e.B) THEN 1 ELSE 0)
    [] e.op = "canon" -> CanonOk(e.p, e.B, e.suf)
    [] e.op = "iter" -> IterOk(e.p, e.B, e.suf)
    [] e.op = "sef" -> SefOk(e.p, e.suf)
    [] e.op = "simplex" -> SimplexOk(e.res, e.first, e.suf, 1)
    [] e.op = "two" -> IF e.suf = <<>> THEN e.res.unb = 0 /\ e.res.x.k = "none" ELSE SimplexOk(e.res, e.first, e.suf, 1)
    [] e.op = "solve" -> IF ~IsSef(e.p) THEN TRUE
                         ELSE IF e.suf = <<>> THEN e.res.x.k = "none" ELSE SimplexOk(IF e.res.x.k = "none" THEN [e.res EXCEPT !.unb = 1] ELSE e.res, e.first, e.suf, 0)
    [] OTHER -> TRUE
Refuse(e) ==
  LET n == Len(lg)
      cut == Len(e.logs) = n + (IF Adds(e) THEN 1 ELSE 0)
      own == e.op \notin Makers \/ e.inp = 1     \* the receiver's log may change
      new == IF Adds(e) THEN e.logs[n + 1] ELSE e.logs[e.r]
  IN IF ~cut THEN {"shape"}
     ELSE (IF e.k \in {"ok", "exc"} THEN {} ELSE {"outcome-" \o e.k})
          \cup (IF \A j \in 1..n : e.logs[j] = lg[j] \/ (j = e.r /\ own) THEN {} ELSE {"bystander-" \o e.op})
          \cup (IF e.op = "clear" /\ e.k = "ok" THEN (IF new = <<>> THEN {} ELSE {"kept"})
                ELSE IF Grown(lg[e.r], new) THEN {} ELSE {"lost-" \o e.op})
          \cup (IF e.show = 1 \/ new = lg[e.r] \/ e.op = "clear" THEN {} ELSE {"unasked-" \o e.op})
          \cup (IF e.op = "copy" /\ new # lg[e.r] THEN {"copy"} ELSE {})
          \cup (IF e.k # "ok" \/ e.show = 0 \/ ~Told(e) \/ e.p.k # "ok" \/ Story(e) THEN {} ELSE {"story-" \o e.op})
          \cup (IF e.txt = 1 THEN {} ELSE {"string"})
TraceInit == i \in 1..Len(Recs) /\ l = 1 /\ lg = [j \in 1..Recs[i].init |-> <<>>]
TraceNext ==
  /\ l <= Len(Recs[i].ev) /\ i' = i
  /\ LET e == Recs[i].ev[l]  f == Refuse(e)
     IN IF f = {} THEN l' = l + 1 /\ lg' = e.logs
        ELSE /\ PrintT("FAIL" \o ToJson([i |-> i, l |-> l, c |-> SetToSeq(f)]))
             /\ l' = Len(Recs[i].ev) + 2 /\ UNCHANGED lg
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
