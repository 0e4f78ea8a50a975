------------------------------ MODULE MCPrinting ------------------------------
(* Reading a printed number gives the rounded number back; rounding moves a      *)
(* number by less than its last place; rows of a printed program are equally     *)
(* long, with points, brackets and relations in the same places.                 *)
EXTENDS Printing, TLC
CONSTANTS Length, D, Low, High, M, N
VARIABLES n, p, ph
Nums(k) == {x \in [neg : {0, 1}, dig : UNION {[1..q -> D] : q \in 0..k}, e : (-Low)..High] : x.dig = <<>> \/ (x.dig[1] # 0 /\ x.dig[Len(x.dig)] # 0)}
Init == ph = 0 /\ n \in Nums(Length) /\ p = 0
Some == {[neg |-> g, dig |-> d, e |-> x] : g \in {0, 1}, d \in {<<>>, <<7>>, <<1, 2, 3, 4, 6>>}, x \in {1, -4}}
Next == /\ ph = 0 /\ n = [neg |-> 0, dig |-> <<>>, e |-> 0] /\ ph' = 1 /\ UNCHANGED n
        /\ \E A \in [1..M -> [1..N -> Some]], s \in [1..N -> {"+", "-", "f"}], r \in [1..M -> {"=", "<="}] :
             p' = [m |-> M, n |-> N, A |-> A, b |-> [i \in 1..M |-> A[M + 1 - i][1]], c |-> A[1], z |-> A[M][N], obj |-> "min", rel |-> r, sgn |-> s, int |-> 0]
(* reading a text: sign, digits before the point, digits after it, exponent *)
Pos(t, c) == {u \in DOMAIN t : t[u] = c}
RECURSIVE Number(_, _)
Number(t, k) == IF k = 0 THEN 0 ELSE Number(t, k - 1) * 10 + t[k] - 48
RECURSIVE Lead(_)
Lead(ds) == IF ds = <<>> \/ ds[1] # 0 THEN 0 ELSE 1 + Lead(Tail(ds))
Read(t) ==
  LET neg == IF t[1] = 45 THEN 1 ELSE 0
      body == SubSeq(t, 1 + neg, Len(t))
      pt == CHOOSE u \in Pos(body, 46) : TRUE
      ex == IF Pos(body, 101) = {} THEN 0 ELSE CHOOSE u \in Pos(body, 101) : TRUE
      frac == SubSeq(body, pt + 1, IF ex = 0 THEN Len(body) ELSE ex - 1)
      x == IF ex = 0 THEN 0 ELSE LET v == SubSeq(body, ex + 2, Len(body)) IN (IF body[ex + 1] = 45 THEN -1 ELSE 1) * Number(v, Len(v))
      ds == [u \in 1..(pt - 1 + Len(frac)) |-> IF u < pt THEN body[u] - 48 ELSE frac[u - pt + 1] - 48]
      z == Lead(ds)
      dig == Trim(SubSeq(ds, z + 1, Len(ds)))
  IN IF dig = <<>> THEN [neg |-> 0, dig |-> <<>>, e |-> 0] ELSE [neg |-> neg, dig |-> dig, e |-> pt - 1 - z + x]
Points(t) == Pos(t, 46)
Safe ==
  /\ Cardinality(Pos(Text(n), 46)) = 1
  /\ ph = 0 => Read(Text(n)) = [Rounded(n) EXCEPT !.neg = IF IsZero(n) THEN 0 ELSE n.neg]
  /\ ph = 0 /\ IsInt(n) /\ ~Huge(n) /\ ~IsZero(n) => Rounded(n) = n /\ Parts(n)[2] = <<>>
  /\ ph = 0 /\ ~IsZero(n) => Len(Rounded(n).dig) <= (IF IsInt(n) /\ ~Huge(n) THEN n.e ELSE Sig(n) + 1)
  /\ ph = 1 => \A i, k \in 1..p.m : /\ Len(Line(p, i)) = Len(Line(p, k))
                                    /\ Pos(Line(p, i), 46) = Pos(Line(p, k), 46)
                                    /\ Pos(Line(p, i), 91) = Pos(Line(p, k), 91) /\ Pos(Line(p, i), 93) = Pos(Line(p, k), 93)
                                    /\ Cardinality(Pos(Line(p, i), 46)) = p.n + 1
=============================================================================
