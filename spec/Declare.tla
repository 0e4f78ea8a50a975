------------------------------ MODULE Declare -------------------------------
(* Formulations under sign declarations.  form[h] = [d, c]: the declared      *)
(* signs, and the program (an index into progs, 0 = none) that was compiled   *)
(* since the last accepted declaration.  progs[k] = [h, d, own]: a compiled   *)
(* program, the signs it was compiled with, and whether it is still as        *)
(* compiled (own = 1: somebody worked on it in place).                        *)
EXTENDS Formulation
VARIABLES form, progs
Fresh(n) == [d |-> [j \in 1..n |-> "f"], c |-> 0]
NVars == Len(form[1].d)
Begin(H, n) == form = [h \in 1..H |-> Fresh(n)] /\ progs = <<>>
Declares(h, ds) ==
  /\ Accepts(NVars, form[h].d, ds)
  /\ form' = [form EXCEPT ![h] = [d |-> Declared(NVars, form[h].d, ds), c |-> IF Len(ds) = 0 THEN form[h].c ELSE 0]]
  /\ UNCHANGED progs
Refuses(h, ds) == ~Accepts(NVars, form[h].d, ds) /\ UNCHANGED <<form, progs>>
Malformed(h) == UNCHANGED <<form, progs>>
DeclaresAll(h, s) ==
  /\ Undeclared(NVars, form[h].d)
  /\ form' = [form EXCEPT ![h] = [d |-> [j \in 1..NVars |-> s], c |-> 0]]
  /\ UNCHANGED progs
RefusesAll(h) == ~Undeclared(NVars, form[h].d) /\ UNCHANGED <<form, progs>>
(* compile, or hand out again what was compiled since the last declaration *)
Compiles(h) ==
  LET c == form[h].c  own == IF c = 0 THEN 0 ELSE progs[c].own
  IN /\ progs' = Append(progs, [h |-> h, d |-> form[h].d, own |-> own])
     /\ form' = [form EXCEPT ![h].c = IF own = 1 THEN c ELSE Len(progs) + 1]
(* whatever was handed out since the last declaration may be one object *)
Works(k) ==
  /\ k \in DOMAIN progs
  /\ LET h == progs[k].h  last == form[h].c
         kin == {q \in DOMAIN progs : progs[q].h = h /\ progs[q].d = progs[k].d}
     IN /\ progs' = [q \in DOMAIN progs |-> IF q \in kin THEN [progs[q] EXCEPT !.own = 1] ELSE progs[q]]
        /\ UNCHANGED form
=============================================================================
