-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of character codes.  The grammars of the two parsers. *)
EXTENDS Integers, Sequences, FiniteSets
Space == 32  Plus == 43  Minus == 45  Dot == 46  Colon == 58  Under == 95  Ex == 120
Digit(c) == c >= 48 /\ c <= 57
Word(c) == Digit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = Under \/ c \in {223, 233, 955}
All(t, P(_)) == \A u \in DOMAIN t : P(t[u])
Where(t, c) == {u \in DOMAIN t : t[u] = c}
From(t, u) == SubSeq(t, u, Len(t))
Upto(t, u) == SubSeq(t, 1, u)
First(W) == CHOOSE u \in W : \A w \in W : u <= w

Digits(t) == t # <<>> /\ All(t, Digit)
Decimal(t) == LET W == Where(t, Dot) IN
  CASE W = {} -> Digits(t)
    [] Cardinality(W) = 1 -> LET u == First(W) IN Digits(Upto(t, u - 1)) /\ Digits(From(t, u + 1))
    [] OTHER -> FALSE
RECURSIVE Nat0(_)
Nat0(t) == IF t = <<>> THEN 0 ELSE 10 * Nat0(Upto(t, Len(t) - 1)) + (t[Len(t)] - 48)
RECURSIVE P10(_)
P10(q) == IF q = 0 THEN 1 ELSE 10 * P10(q - 1)
(* the number in millionths: up to three digits before and six behind the point *)
Micro(t) == LET W == Where(t, Dot)
                u == IF W = {} THEN Len(t) + 1 ELSE First(W)
                f == From(t, u + 1)
            IN Nat0(Upto(t, u - 1)) * 1000000 + (IF f = <<>> THEN 0 ELSE Nat0(f) * P10(6 - Len(f)))

(* pieces of t between characters c (one more than there are such characters) *)
RECURSIVE Split(_, _)
Split(t, c) == LET W == Where(t, c) IN
  IF W = {} THEN <<t>> ELSE <<Upto(t, First(W) - 1)>> \o Split(From(t, First(W) + 1), c)

(* -- graph expressions ------------------------------------------------------ *)
Words(t) == t # <<>> /\ All(t, Word)
Pair(t) == Len(t) = 2 /\ All(t, Word)
Dash(t) == LET s == Split(t, Minus) IN Len(s) = 2 /\ Words(s[1]) /\ Words(s[2])
Weighed(t, P(_)) == LET s == Split(t, Colon) IN Len(s) = 2 /\ P(s[1]) /\ Decimal(s[2])
InForm(t, f) == CASE f = 0 -> Pair(t) [] f = 1 -> Dash(t) [] f = 2 -> Weighed(t, Pair) [] f = 3 -> Weighed(t, Dash)
Forms(s) == {f \in 0..3 : \A u \in DOMAIN Split(s, Space) : InForm(Split(s, Space)[u], f)}
Triple(t, f) ==
  LET s == Split(t, Colon)
      a == IF f % 2 = 0 THEN <<Upto(s[1], 1), From(s[1], 2)>> ELSE Split(s[1], Minus)
  IN <<a[1], a[2], IF f >= 2 THEN Micro(s[2]) ELSE 0>>
Triples(s) == LET f == CHOOSE f \in Forms(s) : TRUE  ts == Split(s, Space) IN [u \in DOMAIN ts |-> Triple(ts[u], f)]

(* -- linear expressions ------------------------------------------------------ *)
(* starts of terms: the first character, and every sign behind it *)
RECURSIVE Cut(_, _)
Cut(t, k) == LET W == {u \in DOMAIN t : u >= k /\ t[u] \in {Plus, Minus}} IN
  IF W = {} THEN <<t>> ELSE <<Upto(t, First(W) - 1)>> \o Cut(From(t, First(W)), 2)
LTerms(t) == Cut(t, 2)
Body(t, first) == IF t # <<>> /\ (t[1] = Minus \/ (t[1] = Plus /\ ~first)) THEN From(t, 2) ELSE t
LTerm(t, first) ==
  LET b == Body(t, first)  s == Split(b, Ex) IN
  /\ first \/ (t # <<>> /\ t[1] \in {Plus, Minus})
  /\ Len(s) = 2 /\ Decimal(s[1])
  /\ Len(s[2]) >= 2 /\ s[2][1] = Under /\ Digits(From(s[2], 2)) /\ \E u \in 2..Len(s[2]) : s[2][u] # 48
LIndex(t, first) == Nat0(From(Split(Body(t, first), Ex)[2], 2))
LCoef(t, first) == (IF t[1] = Minus THEN -1 ELSE 1) * Micro(Split(Body(t, first), Ex)[1])
Linear(t) ==
  LET ts == LTerms(t) IN
  /\ t # <<>> /\ \A u \in DOMAIN ts : LTerm(ts[u], u = 1)
  /\ \A u, w \in DOMAIN ts : u # w => LIndex(ts[u], u = 1) # LIndex(ts[w], w = 1)
LSize(t) == LET ts == LTerms(t)  I == {LIndex(ts[u], u = 1) : u \in DOMAIN ts} IN CHOOSE a \in I : \A b \in I : b <= a
LVector(t, n) == LET ts == LTerms(t) IN
  [j \in 1..n |-> LET U == {u \in DOMAIN ts : LIndex(ts[u], u = 1) = j} IN IF U = {} THEN 0 ELSE LET u == First(U) IN LCoef(ts[u], u = 1)]
=============================================================================
