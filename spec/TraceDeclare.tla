---------------------------- MODULE TraceDeclare ----------------------------
(* F02: recorded declaration histories.  Record: p (the program written, over *)
(* scale p.s, signs as yet undeclared), ev; each event has op, h, ds, k, kind *)
(* (outcome) and post = <<program index, program as read back>> for the        *)
(* compiled programs, read after the event.                                   *)
EXTENDS Declare, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Do(e) == LET ok == e.kind = "ok" IN
  CASE e.op = "where" -> IF ok THEN Declares(e.h, e.ds) ELSE Refuses(e.h, e.ds)
    [] e.op = "all" -> IF ok THEN DeclaresAll(e.h, e.s) ELSE RefusesAll(e.h)
    [] e.op = "bad" -> ~ok /\ Malformed(e.h)
    [] e.op = "program" -> ok /\ Compiles(e.h)
    [] e.op = "use" -> ok /\ Malformed(e.h)
    [] e.op = "work" -> Works(e.k)
    [] OTHER -> FALSE
Fields == {"m", "n", "s", "A", "b", "c", "z", "obj", "rel"}
Shows(p, q, d) == q.k = "ok" /\ (\A f \in Fields : q[f] = p[f]) /\ \A j \in 1..p.n : q.sgn[j] = d[j]
Seen(p, e) == \A u \in DOMAIN e.post : LET g == progs'[e.post[u][1]] IN g.own = 1 \/ Shows(p, e.post[u][2], g.d)
TraceInit == i \in 1..Len(Recs) /\ l = 1 /\ Begin(2, Recs[i].p.n)
TraceNext ==
  /\ l <= Len(Recs[i].ev) /\ i' = i
  /\ LET e == Recs[i].ev[l]
     IN IF ENABLED (Do(e) /\ Seen(Recs[i].p, e)) THEN Do(e) /\ l' = l + 1
        ELSE /\ PrintT("FAIL" \o ToJson([i |-> i, l |-> l, c |-> <<(IF ENABLED Do(e) THEN "program-after-" ELSE "outcome-of-") \o e.op>>]))
             /\ l' = Len(Recs[i].ev) + 2 /\ UNCHANGED <<form, progs>>
TraceSpec == TraceInit /\ [][TraceNext]_<<form, progs, i, l>>
=============================================================================
