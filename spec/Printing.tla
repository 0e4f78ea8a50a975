------------------------------- MODULE Printing -------------------------------
(***************************************************************************)
(* The printed form of a program.  Texts are sequences of code points.         *)
(* A number is [neg, dig, e]: dig its decimal digits without leading or         *)
(* trailing zeros (<<>> for zero), the value 0.d1 d2 ... * 10^e.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Cat(ss) == LET RECURSIVE go(_)
               go(k) == IF k = 0 THEN <<>> ELSE go(k - 1) \o ss[k]
           IN go(Len(ss))
Rep(c, k) == [u \in 1..k |-> c]
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
Dot == <<46>>
Minus == <<45>>
Digits(ds) == [u \in DOMAIN ds |-> 48 + ds[u]]
RECURSIVE Decimal(_)
Decimal(k) == IF k < 10 THEN <<48 + k>> ELSE Decimal(k \div 10) \o <<48 + (k % 10)>>

(* -- rounding digit sequences ------------------------------------------------ *)
RECURSIVE Trim(_)
Trim(ds) == IF ds = <<>> \/ ds[Len(ds)] # 0 THEN ds ELSE Trim(SubSeq(ds, 1, Len(ds) - 1))
RECURSIVE Bump(_)          \* one more in the last place: <<carry, digits>>
Bump(ds) == IF ds = <<>> THEN <<1, <<>>>>
            ELSE IF ds[Len(ds)] < 9 THEN <<0, [ds EXCEPT ![Len(ds)] = @ + 1]>>
            ELSE LET r == Bump(SubSeq(ds, 1, Len(ds) - 1)) IN <<r[1], Append(r[2], 0)>>
(* keep k digits, to nearest; never asked half way *)
Keep(n, k) ==
  IF k < 0 THEN [n EXCEPT !.dig = <<>>]
  ELSE IF Len(n.dig) <= k THEN n
  ELSE LET head == SubSeq(n.dig, 1, k)
           r == IF n.dig[k + 1] >= 5 THEN Bump(head) ELSE <<0, head>>
       IN IF r[1] = 1 THEN [n EXCEPT !.dig = Trim(<<1>> \o r[2]), !.e = @ + 1] ELSE [n EXCEPT !.dig = Trim(r[2])]
Halfway(n, k) == Len(n.dig) = k + 1 /\ n.dig[k + 1] = 5

(* -- numbers ------------------------------------------------------------------ *)
IsZero(n) == n.dig = <<>> \/ n.e < -9               \* below 1e-10
IsInt(n) == Len(n.dig) <= n.e
Huge(n) == n.e > 11 \/ (n.e = 11 /\ n.dig # <<1>>)    \* above 1e10
Tiny(n) == n.e < -3                                 \* below 1e-4
Small(n) == n.e < 1                                 \* below 1
(* significant digits kept *)
Sig(n) == IF Huge(n) \/ Small(n) THEN 4 ELSE n.e + 3
Rounded(n) == IF IsZero(n) THEN [neg |-> 0, dig |-> <<>>, e |-> 0]
              ELSE IF IsInt(n) /\ ~Huge(n) THEN n ELSE Keep(n, Sig(n))
Scientific(n) == Huge(n) \/ (~IsInt(n) /\ Tiny(n))
Pad(ds, k) == ds \o Rep(0, k - Len(ds))
Exponent(x) == <<101, IF x < 0 THEN 45 ELSE 43>> \o (LET a == IF x < 0 THEN -x ELSE x IN IF a < 10 THEN <<48>> \o Decimal(a) ELSE Decimal(a))
(* a number within 1e-10 of an integer is that integer: ten 0s or ten 9s after the point *)
Settle(n) ==
  IF n.e < 0 \/ n.e > 11 \/ Len(n.dig) <= n.e + 10 THEN n
  ELSE LET ten == {n.dig[n.e + u] : u \in 1..10}
           head == SubSeq(n.dig, 1, n.e)
           r == Bump(head)
       IN IF ten = {0} THEN [n EXCEPT !.dig = Trim(head)]
          ELSE IF ten # {9} THEN n
          ELSE IF r[1] = 1 THEN [n EXCEPT !.dig = Trim(<<1>> \o r[2]), !.e = @ + 1] ELSE [n EXCEPT !.dig = Trim(r[2])]
(* the text of a number: <<before the point, after the point>> *)
Parts(n0) ==
  LET n == Settle(n0) IN
  IF IsZero(n) THEN << <<48>>, <<>> >>
  ELSE LET r == Rounded(n)
           sign == IF n.neg = 1 THEN Minus ELSE <<>>
       IN IF Scientific(n) THEN LET d == Pad(r.dig, 4) IN << sign \o Digits(<<d[1]>>), Digits(SubSeq(d, 2, 4)) \o Exponent(r.e - 1) >>
          ELSE IF IsInt(n) THEN << sign \o Digits(Pad(n.dig, n.e)), <<>> >>
          ELSE IF r.e < 1 THEN << sign \o <<48>>, Digits(Rep(0, -r.e) \o r.dig) >>
          ELSE LET d == IF Len(r.dig) < r.e THEN Pad(r.dig, r.e) ELSE r.dig
               IN << sign \o Digits(SubSeq(d, 1, r.e)), IF Len(d) = r.e THEN <<48>> ELSE Digits(SubSeq(d, r.e + 1, Len(d))) >>
Text(n) == Parts(n)[1] \o Dot \o Parts(n)[2]

(* -- the program --------------------------------------------------------------- *)
(* p = [m, n, A, b, c, z, obj, rel, sgn, int], numbers as above                    *)
Join(ss, sep) == LET RECURSIVE go(_)
                     go(k) == IF k = 0 THEN <<>> ELSE go(k - 1) \o (IF k = 1 THEN <<>> ELSE sep) \o ss[k]
                 IN go(Len(ss))
Filled(n, w) == LET t == Parts(n) IN Rep(32, w[1] - Len(t[1])) \o t[1] \o Dot \o t[2] \o Rep(32, w[2] - Len(t[2]))
Width(ns) == << MaxOf({Len(Parts(ns[u])[1]) : u \in DOMAIN ns}), MaxOf({Len(Parts(ns[u])[2]) : u \in DOMAIN ns}) >>
Objective(p) ==
  <<77>> \o (IF p.obj = "max" THEN <<97, 120>> ELSE <<105, 110>>) \o <<32, 91>> \o Join([j \in 1..p.n |-> Text(p.c[j])], <<32>>) \o <<93, 120>>
  \o (IF IsZero(p.z) THEN <<>> ELSE <<32, IF p.z.neg = 1 THEN 45 ELSE 43, 32>> \o Text([p.z EXCEPT !.neg = 0]))
Line(p, i) ==
  LET w == [j \in 1..p.n |-> Width([k \in 1..p.m |-> p.A[k][j]])]
  IN <<91>> \o Join([j \in 1..p.n |-> Filled(p.A[i][j], w[j])], <<32, 32>>) \o <<93>>
     \o (IF i = p.m \div 2 + 1 THEN <<120>> ELSE <<32>>) \o <<32, 32, 32, 32>>
     \o (CASE p.rel[i] = "=" -> <<61>> [] p.rel[i] = "<=" -> <<8804>> [] p.rel[i] = ">=" -> <<8805>>) \o <<32, 32, 32, 91>>
     \o Filled(p.b[i], Width(p.b)) \o <<93>>
Subscript(k) == [u \in DOMAIN Decimal(k) |-> Decimal(k)[u] + 8272]
Members(p, g) == LET RECURSIVE go(_)
                     go(j) == IF j > p.n THEN <<>> ELSE (IF p.sgn[j] = g THEN <<j>> ELSE <<>>) \o go(j + 1)
                 IN go(1)
Signs(p, g, rel) ==
  LET s == Members(p, g)
  IN IF s = <<>> THEN <<>>
     ELSE << (IF Len(s) = p.n THEN <<120>> ELSE Join([u \in DOMAIN s |-> <<120>> \o Subscript(s[u])], <<44, 32>>)) \o <<32, rel, 32, 48>> >>
SubjectTo == <<83, 117, 98, 106, 101, 99, 116, 32, 84, 111, 58>>
Printed(p) ==
  <<Objective(p), SubjectTo, <<>>>> \o [i \in 1..p.m |-> Line(p, i)] \o Signs(p, "-", 8804) \o Signs(p, "+", 8805)
  \o (IF p.int = 1 THEN << <<120, 32, 8712, 32, 90>> >> ELSE <<>>)
=============================================================================
