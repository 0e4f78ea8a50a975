----------------------------- MODULE TraceStore -----------------------------
(* L09 / L11: recorded histories over a store of programs.  Record: tab (the    *)
(* contents that occurred), init (content of each program at the start), ev:    *)
(*   [op, r (receiver), inp (1: in place), k, self (1: the receiver itself was   *)
(*    returned), after (contents of all programs after the operation, a new one  *)
(*    last), args (1: the caller's arguments are as they were), ...]             *)
(*   op = "eq": q, v (answer of r == q);   op = "clear": n0, n1, n2 (steps of    *)
(*    the receiver before and after, and of the result)                          *)
(* tok: programs share a token while one is an unchanged copy of the other.      *)
EXTENDS Store, Json, IOUtils, SequencesExt
VARIABLES i, l, st, tok, fresh
vars == <<i, l, st, tok, fresh>>
Recs == ndJsonDeserialize(IOEnv.TRACE)

InPlace(e) == e.k = "ok" /\ e.inp = 1 /\ e.op \in Makes
Adds(e) == e.k = "ok" /\ e.inp = 0 /\ e.op \in Makes
(* an edited program solves like any program with its data; w witnesses the truth *)
Final(p, e) ==
  IF ~Witnesses(p, e.w) THEN {"no-witness"}
  ELSE IF e.k # "ok" THEN {"solve"}
  ELSE (IF e.sef = (IF IsSef(p) THEN 1 ELSE 0) THEN {} ELSE {"standard"})
       \cup (IF e.w.kind = "optimal" THEN (IF IsVec(e.x, p.n) /\ Feasible(p, e.x) /\ Value(p, e.x) = OptimalValue(p, e.w) THEN {} ELSE {"solve"})
             ELSE IF e.x.k = "none" THEN {} ELSE {"solve"})
Refuse(r, e) ==
  LET T(c) == r.tab[c]
      n == Len(st)
      d == IF e.op \in Makes THEN Demand(e, T(st[e.r])) ELSE "any"
      cut == Len(e.after) = n + (IF Adds(e) THEN 1 ELSE 0)
  IN (IF e.op \in Makes /\ ((d = "ok" /\ e.k # "ok") \/ (d = "exc" /\ e.k # "exc") \/ e.k \notin {"ok", "exc"}) THEN {"outcome-" \o e.op} ELSE {})
     \cup (IF cut /\ \A j \in 1..n : (InPlace(e) /\ j = e.r) \/ e.after[j] = st[j] THEN {} ELSE {IF e.k = "exc" THEN "failed-" \o e.op ELSE "bystander-" \o e.op})
     \cup (IF e.args = 1 THEN {} ELSE {"arguments"})
     \cup (IF e.k # "ok" \/ e.op \notin Makes \/ ~cut \/ d = "exc" THEN {}
           ELSE (IF Effect(e, T(st[e.r]), T(e.after[IF e.inp = 1 THEN e.r ELSE n + 1])) THEN {} ELSE {"result-" \o e.op})
                \cup (IF e.self = e.inp THEN {} ELSE {"returned"}))
     \cup (IF e.op # "eq" THEN {}
           ELSE IF e.k # "ok" THEN {"equality"}
           ELSE IF tok[e.r] = tok[e.q] THEN (IF e.v = 1 THEN {} ELSE {"equality"})
           ELSE IF st[e.r] # st[e.q] THEN (IF e.v = 0 THEN {} ELSE {"equality"}) ELSE {})
     \cup (IF e.op # "final" THEN {} ELSE Final(T(st[e.r]).p, e))
     \cup (IF e.op # "clear" \/ e.k # "ok" THEN {} ELSE IF e.n2 = 0 /\ (e.inp = 1 \/ e.n1 = e.n0) THEN {} ELSE {"steps"})

TraceInit == i \in 1..Len(Recs) /\ l = 1 /\ st = Recs[i].init /\ tok = [j \in DOMAIN Recs[i].init |-> j] /\ fresh = Len(Recs[i].init) + 1
TraceNext ==
  /\ l <= Len(Recs[i].ev) /\ i' = i
  /\ LET e == Recs[i].ev[l]  f == Refuse(Recs[i], e)
     IN IF f = {} THEN /\ l' = l + 1 /\ st' = e.after /\ fresh' = fresh + 1
                       /\ tok' = IF InPlace(e) THEN [tok EXCEPT ![e.r] = fresh]
                                 ELSE IF Adds(e) THEN Append(tok, IF e.op \in {"copy", "clear"} THEN tok[e.r] ELSE fresh)
                                 ELSE tok
        ELSE /\ PrintT("FAIL" \o ToJson([i |-> i, l |-> l, c |-> SetToSeq(f)]))
             /\ l' = Len(Recs[i].ev) + 2 /\ UNCHANGED <<st, tok, fresh>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
