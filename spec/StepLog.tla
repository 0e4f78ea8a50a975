------------------------------- MODULE StepLog -------------------------------
(***************************************************************************)
(* Every program keeps a log of the steps its operations took.  The log as a   *)
(* machine: it only grows at its end, on request, until it is cleared; copies   *)
(* start with the log of their original and then go their own way.  And what    *)
(* the steps of an operation say must be so.                                   *)
(* A step is [id, key, ints, vec]: the kind of statement, the whole numbers     *)
(* (indices, basis, counter) and the vector it names.                          *)
EXTENDS Transform, SequencesExt

Keys(suf) == [x \in DOMAIN suf |-> suf[x].key]
SameVec(u, v) == u.k = "vec" /\ v.k = "vec" /\ Len(u.num) = Len(v.num)
                 /\ \A j \in DOMAIN u.num : Norm(u.num[j], u.den) = Norm(v.num[j], v.den)
Nonneg(x) == \A j \in DOMAIN x.num : x.num[j] >= 0
RowsTight(p, x) == \A i \in 1..p.m : Dot(p.A[i], x.num) = p.b[i] * x.den

(* -- is_feasible ----------------------------------------------------------- *)
FeasKeys(p, x) ==
  IF IsSef(p)
  THEN IF Feasible(p, x) THEN <<"2.01", "2.02", "2.03", "2.04", "2.05">>
       ELSE <<"2.01", "2.06", "2.03">> \o (IF Nonneg(x) THEN <<>> ELSE <<"2.07">>) \o (IF RowsTight(p, x) THEN <<>> ELSE <<"2.08">>)
  ELSE <<"2.01", "2.02", "2.14", "2.15">>
(* an infeasible vector of another form: the question and no claim of feasibility *)
NoClaim(suf) == Len(suf) > 0 /\ suf[1].key = "2.01" /\ \A q \in DOMAIN suf : suf[q].key \notin {"2.02", "2.03", "2.04", "2.05", "2.14", "2.15"}
FeasOk(p, x, suf) ==
  /\ IF IsSef(p) \/ Feasible(p, x) THEN Keys(suf) = FeasKeys(p, x) ELSE NoClaim(suf)
  /\ \A q \in DOMAIN suf : suf[q].key \in {"2.01", "2.02", "2.06", "2.04", "2.07"} => SameVec(suf[q].vec, x)

(* -- is_basic_solution ------------------------------------------------------ *)
Outside(p, x, B) == LET RECURSIVE go(_)
                        go(j) == IF j > p.n THEN <<>> ELSE (IF j \notin SetOf(B) /\ x.num[j] # 0 THEN <<j>> ELSE <<>>) \o go(j + 1)
                    IN go(1)
BasicOk(p, x, B, suf) ==
  LET out == Outside(p, x, B)
      yes == out = <<>> /\ RowsTight(p, x)
      k == Len(out)
      want == <<"4.01">> \o [q \in 1..k |-> "4.02"] \o (IF RowsTight(p, x) THEN <<>> ELSE <<"4.03">>) \o (IF yes THEN <<"4.06", "4.07", "4.04">> ELSE <<"4.05">>)
  IN /\ Keys(suf) = want
     /\ suf[1].ints = B
     /\ \A q \in 1..k : suf[q + 1].ints = <<out[q]>>
     /\ Last(suf).ints = B /\ SameVec(Last(suf).vec, x)

(* -- canonical form: the basis matrix, its costs, its inverse and y ---------- *)
FlatCols(p, B) == [q \in 1..(p.m * p.m) |-> p.A[((q - 1) \div p.m) + 1][B[((q - 1) % p.m) + 1]]]
InverseOk(p, B, v) ==       \* v: the inverse, row by row
  /\ v.k = "vec" /\ Len(v.num) = p.m * p.m
  /\ \A i, k \in 1..p.m : Dot([q \in 1..p.m |-> v.num[(i - 1) * p.m + q]], [q \in 1..p.m |-> p.A[q][B[k]]]) = (IF i = k THEN p.s * v.den ELSE 0)
BasisNumbers(p, B, suf) ==  \* the four steps 1.02 .. 1.05
  /\ suf[1].vec.k = "vec" /\ SameVec(suf[1].vec, [k |-> "vec", num |-> FlatCols(p, B), den |-> p.s])
  /\ SameVec(suf[2].vec, [k |-> "vec", num |-> [q \in 1..p.m |-> p.c[B[q]]], den |-> p.s])
  /\ InverseOk(p, B, suf[3].vec)
  /\ suf[4].vec.k = "vec" /\ Len(suf[4].vec.num) = p.m
  /\ \A k \in 1..p.m : Dot(suf[4].vec.num, [q \in 1..p.m |-> p.A[q][B[k]]]) = p.c[B[k]] * suf[4].vec.den
Four == <<"1.02", "1.03", "1.04", "1.05">>
CanonOk(p, B, suf) == Keys(suf) = <<"1.01">> \o Four /\ suf[1].ints = B /\ BasisNumbers(p, B, Tail(suf))
IterOk(p, B, suf) == Keys(suf) = Four /\ ((\A i \in 1..p.m : p.b[i] >= 0) => BasisNumbers(p, SetToSortSeq(SetOf(B), <), suf))

(* -- standard form ------------------------------------------------------------ *)
SefOk(p, suf) ==
  IF IsSef(p) THEN suf = <<>>
  ELSE IF p.obj = "max" THEN Keys(suf) = <<"3.01">>
  ELSE /\ Keys(suf) = <<"3.01", "3.02", "3.03">>
       /\ SameVec(suf[3].vec, [k |-> "vec", num |-> p.c \o [j \in 1..p.n |-> -p.c[j]], den |-> p.s])

(* -- simplex: numbered iterations, each with its program, then the outcome ------ *)
(* dependent rows are left out of the story, the returned certificate gives them no weight *)
NonZero(v) == SelectSeq(v.num, LAMBDA t : t # 0)
CertOk(u, y) ==
  IF u.k = "vec" /\ y.k = "vec" /\ Len(u.num) < Len(y.num)
  THEN SameVec([u EXCEPT !.num = NonZero(u)], [y EXCEPT !.num = NonZero(y)])
  ELSE SameVec(u, y)
(* res = [unb, x, B, y]: what the call returned                                   *)
SimplexOk(res, first, suf, whole) ==
  LET tail == IF res.unb = 1 THEN 1 ELSE 3
      k == (Len(suf) - tail) \div 2
  IN /\ Len(suf) = 2 * k + tail /\ k >= 2
     /\ \A q \in 1..k : suf[2 * q - 1].key = "5.02" /\ suf[2 * q - 1].ints = <<q - 1>> /\ suf[2 * q].key = "5.01"
     /\ first = 1
     /\ IF res.unb = 1 THEN Last(suf).key = "5.05"
        ELSE /\ Keys(SubSeq(suf, 2 * k + 1, 2 * k + 3)) = <<"5.03", "5.04", "5.06">>
             /\ SameVec(suf[2 * k + 1].vec, res.x)
             /\ (whole = 0 \/ (suf[2 * k + 2].ints = res.B /\ CertOk(suf[2 * k + 3].vec, res.y)))

(* -- the machine ------------------------------------------------------------------ *)
Grown(old, new) == IsPrefix(old, new)
=============================================================================
