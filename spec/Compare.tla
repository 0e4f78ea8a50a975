------------------------------ MODULE Compare -------------------------------
(* Tolerant comparison.  A number is [w, k, e]: w quarters plus k * 10^e,    *)
(* with |k * 10^e| < 1/8; a test is a number with k = 0, or with w = 0 and    *)
(* then only compared with numbers of w = 0 and the same e.                   *)
(* e in -19..-3, |k| < 10^9; for tests with k # 0: e in -12..-3, |k| <= 10^4. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
RECURSIVE Ten(_)
Ten(q) == IF q = 0 THEN 1 ELSE 10 * Ten(q - 1)
(* a <= n * 10^q, for a, n >= 0, without forming the product *)
AtMost(a, n, q) == IF q >= 9 THEN n > 0 \/ a = 0 ELSE (a + Ten(q) - 1) \div Ten(q) <= n

IsZero(t) == t.w = 0 /\ t.k = 0
(* |k * 10^e| < 10^-10 *)
Tiny(k, e) == IF e >= -10 THEN k = 0 ELSE ~(IF -10 - e >= 9 THEN FALSE ELSE Abs(k) >= Ten(-10 - e))
(* around zero: less than 10^-10 away; around t: at most 10^-8 + 10^-5 |t| away *)
Close(n, t) ==
  IF IsZero(t) THEN n.w = 0 /\ Tiny(n.k, n.e)
  ELSE IF n.w # t.w THEN n.k = 0 /\ t.k = 0 /\ Abs(n.w - t.w) <= Abs(t.w) \div 100000
  ELSE IF n.k = t.k THEN TRUE
  ELSE IF t.k = 0
       THEN (* 4 |k| 10^e <= 4 * 10^-8 + 10^-5 |w| *)
            IF n.e >= -8 THEN AtMost(Abs(n.k), (4 + 1000 * Abs(t.w)) \div (4 * Ten(n.e + 8)), 0)
            ELSE AtMost(4 * Abs(n.k), 4 + 1000 * Abs(t.w), -8 - n.e)
       ELSE Abs(n.k - t.k) * 100000 <= Ten(-3 - n.e) + Abs(t.k)
Order(n, t) == IF n.w # t.w THEN Sgn(n.w - t.w) ELSE Sgn(n.k - t.k)

Holds(n, op, t) ==
  CASE op = "<"  -> ~Close(n, t) /\ Order(n, t) < 0
    [] op = ">"  -> ~Close(n, t) /\ Order(n, t) > 0
    [] op = "<=" -> Close(n, t) \/ Order(n, t) < 0
    [] op = ">=" -> Close(n, t) \/ Order(n, t) > 0
Zero == [w |-> 0, k |-> 0, e |-> -3]
Integer(n) == n.w % 4 = 0 /\ Tiny(n.k, n.e)
=============================================================================
