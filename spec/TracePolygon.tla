---------------------------- MODULE TracePolygon ----------------------------
(* V01: recorded pictures.  Record: p, g (half-width), k ("ok" | "exc" *)
(* | "exit"), shown (regions drawn), walk (the corners of the drawn region in       *)
(* order, repetitions removed), lines (1: the outline drawn is the same walk), same. *)
EXTENDS Polygon, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
Supported(p) == p.n = 2 /\ ((\A x \in 1..p.m : p.rel[x] = "<=") \/ (\A x \in 1..p.m : p.rel[x] = ">="))
Failing(r) ==
  (IF r.same = 1 THEN {} ELSE {"altered"})
  \cup (IF ~Supported(r.p) THEN (IF r.k = "exc" /\ r.shown = 0 THEN {} ELSE {"accepted"})
        ELSE LET h == Halves(r.p, r.g) IN
             IF Corners(h) = {} THEN (IF r.shown = 0 /\ r.k \in {"ok", "exc", "exit"} THEN {} ELSE {"empty"})
             ELSE IF r.k # "ok" THEN {"outcome-" \o r.k}
             ELSE IF r.shown # 1 THEN {"drawn"}
             ELSE (IF {r.walk[x] : x \in DOMAIN r.walk} = Corners(h) THEN {} ELSE {"corners"})
                  \cup (IF Boundary(h, r.walk) THEN {} ELSE {"order"})
                  \cup (IF r.lines = 1 THEN {} ELSE {"outline"}))
INSTANCE OneStep
=============================================================================
