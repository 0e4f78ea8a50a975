------------------------------ MODULE Transform ------------------------------
(***************************************************************************)
(* The program transformations as functions on programs: standard equality   *)
(* form, dual, one more row, one more variable; and the maps between the      *)
(* feasible points on both sides.                                            *)
EXTENDS LP, TLC

Slacked(p) == LET RECURSIVE go(_)
                  go(i) == IF i > p.m THEN <<>> ELSE (IF p.rel[i] = "=" THEN <<>> ELSE <<i>>) \o go(i + 1)
              IN go(1)
(* the columns of the standard form: <<"x", j, factor>> or <<"s", i, factor>> *)
SefColumns(p) ==
  LET RECURSIVE vars(_)
      vars(j) == IF j > p.n THEN <<>>
                 ELSE (CASE p.sgn[j] = "+" -> << <<"x", j, 1>> >>
                         [] p.sgn[j] = "-" -> << <<"x", j, -1>> >>
                         [] p.sgn[j] = "f" -> << <<"x", j, 1>>, <<"x", j, -1>> >>) \o vars(j + 1)
      sl == Slacked(p)
  IN vars(1) \o [k \in DOMAIN sl |-> <<"s", sl[k], IF p.rel[sl[k]] = "<=" THEN 1 ELSE -1>>]
Sef(p) ==
  IF IsSef(p) THEN p
  ELSE LET C == SefColumns(p)
           g == IF p.obj = "max" THEN 1 ELSE -1
       IN [m |-> p.m, n |-> Len(C), s |-> p.s, obj |-> "max", b |-> p.b, z |-> p.z,
           rel |-> [i \in 1..p.m |-> "="], sgn |-> [k \in DOMAIN C |-> "+"],
           A |-> [i \in 1..p.m |-> [k \in DOMAIN C |-> IF C[k][1] = "x" THEN C[k][3] * p.A[i][C[k][2]] ELSE IF C[k][2] = i THEN C[k][3] * p.s ELSE 0]],
           c |-> [k \in DOMAIN C |-> IF C[k][1] = "x" THEN g * C[k][3] * p.c[C[k][2]] ELSE 0]]
(* original point of a point of the standard form, and its simplest image *)
Back(p, v) == LET C == SefColumns(p) IN
  [k |-> "vec", den |-> v.den,
   num |-> [j \in 1..p.n |-> Sum([q \in DOMAIN C |-> IF C[q][1] = "x" /\ C[q][2] = j THEN C[q][3] * v.num[q] ELSE 0])]]
Image(p, x) == LET C == SefColumns(p) IN      \* for data with s = 1
  [k |-> "vec", den |-> x.den,
   num |-> [q \in DOMAIN C |-> IF C[q][1] = "s" THEN C[q][3] * (p.b[C[q][2]] * x.den - Dot(p.A[C[q][2]], x.num))
                               ELSE IF p.sgn[C[q][2]] = "f" THEN Max2(0, C[q][3] * x.num[C[q][2]])
                               ELSE C[q][3] * x.num[C[q][2]]]]

(* sense of a dual row / sign of a dual variable *)
Dual(p) ==
  [m |-> p.n, n |-> p.m, s |-> p.s, b |-> p.c, c |-> p.b, z |-> 0, obj |-> IF p.obj = "max" THEN "min" ELSE "max",
   A |-> [j \in 1..p.n |-> Col(p, j)],
   rel |-> [j \in 1..p.n |-> IF p.obj = "max" THEN RelOfSign(p.sgn[j]) ELSE Flip(RelOfSign(p.sgn[j]))],
   sgn |-> [i \in 1..p.m |-> IF p.obj = "max" THEN UpSign(p.rel[i]) ELSE DownSign(p.rel[i])]]

WithRow(p, a, r, t) == [p EXCEPT !.m = @ + 1, !.A = Append(@, a), !.b = Append(@, t), !.rel = Append(@, r)]
WithVar(p, q, col, g) == [p EXCEPT !.n = @ + 1, !.A = [i \in 1..p.m |-> Append(@[i], col[i])], !.c = Append(@, q), !.sgn = Append(@, g)]

(* the mathematical data of a record that may carry more fields *)
Data(p) == [m |-> p.m, n |-> p.n, s |-> p.s, A |-> p.A, b |-> p.b, c |-> p.c, z |-> p.z, obj |-> p.obj, rel |-> p.rel, sgn |-> p.sgn]
=============================================================================
