--------------------------------- MODULE Draw ---------------------------------
(***************************************************************************)
(* The random program generator as a nondeterministic machine: a request for   *)
(* m rows, n columns and a magnitude draws one program of that shape with       *)
(* arbitrary sense, relations and signs and data within the magnitude.          *)
(* Data are in thousandths and may be off by a rounding of half a hundredth.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Senses, Rels, Signs
Slack == 5
Within(v, g) == v <= g + Slack /\ v >= -(g + Slack)
(* a drawn program d = [m, n, obj, rel, sgn, lo, hi] (lo, hi: extreme data) *)
Drawable(d, m, n, g) ==
  /\ d.m = m /\ d.n = n
  /\ d.obj \in Senses
  /\ Len(d.rel) = m /\ \A i \in 1..m : d.rel[i] \in Rels
  /\ Len(d.sgn) = n /\ \A j \in 1..n : d.sgn[j] \in Signs
  /\ Within(d.lo, g) /\ Within(d.hi, g) /\ d.lo <= d.hi
RangeOf(s) == {s[x] : x \in DOMAIN s}
(* a fair batch of draws of one shape leaves no choice unused, in any place *)
Covers(ds) ==
  /\ {ds[x].obj : x \in DOMAIN ds} = Senses
  /\ \A i \in DOMAIN ds[1].rel : {ds[x].rel[i] : x \in DOMAIN ds} = Rels
  /\ \A j \in DOMAIN ds[1].sgn : {ds[x].sgn[j] : x \in DOMAIN ds} = Signs
  /\ (\E x \in DOMAIN ds : ds[x].lo < 0) /\ (\E x \in DOMAIN ds : ds[x].hi > 0)
  /\ Cardinality(RangeOf(ds)) > 1
(* every entry of the data takes both signs: spread is a sequence of <<least, greatest>> *)
Spread(spread) == \A x \in DOMAIN spread : spread[x][1] < 0 /\ spread[x][2] > 0
(* Any two choices are made independently: all their combinations occur.  codes[x] is draw x as a sequence
   of choices and signs of data (0: neither sign), doms[p] the possible values at place p *)
Combined(codes, doms) ==
  \A p \in DOMAIN doms : \A q \in (p + 1)..Len(doms) :
    LET seen == {<<codes[x][p], codes[x][q]>> : x \in DOMAIN codes} IN \A u \in doms[p], v \in doms[q] : <<u, v>> \in seen
Domains(m, n) == [p \in 1..(1 + m + n + m * n + m + n + 1) |-> IF p = 1 THEN {1, 2} ELSE IF p <= 1 + m + n THEN {1, 2, 3} ELSE {-1, 1}]
=============================================================================
