------------------------------- MODULE MCText -------------------------------
(* The recognisers above accept exactly the texts the grammars generate, and  *)
(* what they read determines the text.  Both languages are generated term by  *)
(* term, every text over the alphabet up to a length is looked at.            *)
EXTENDS Text
CONSTANTS L, Kind
VARIABLES s, ph
vars == <<s, ph>>
GAlpha == {97, 49, Minus, Colon, Space, Dot}
LAlpha == {49, 48, Ex, Under, Plus, Minus, Dot}
Alpha == IF Kind = 0 THEN GAlpha ELSE LAlpha
Texts(A, a, b) == UNION {[1..k -> A] : k \in a..b}
Init == ph = 0 /\ s \in Texts(Alpha, 0, IF L < 3 THEN L ELSE 3)
Next == /\ ph = 0 /\ ph' = 1 /\ (s' = s \/ (Len(s) = 3 /\ \E t \in Texts(Alpha, 1, L - 3) : s' = s \o t))
Spec == Init /\ [][Next]_vars
(* generated languages, with what each text means *)
Ws(k) == Texts({c \in GAlpha : Word(c)}, 1, k)
Ds(k) == Texts({c \in Alpha : Digit(c)}, 1, k)
Numbers(k) == Ds(k) \cup {d \o <<Dot>> \o f : d \in Ds(k - 2), f \in Ds(k - 2)}
Short(S) == {t \in S : Len(t) <= L}
Names(f) == IF f % 2 = 0 THEN {<<a, b>> : a, b \in {c \in GAlpha : Word(c)}} ELSE Short({a \o <<Minus>> \o b : a, b \in Ws(L - 2)})
Terms(f) == IF f < 2 THEN Short(Names(f)) ELSE Short({a \o <<Colon>> \o n : a \in Names(f), n \in Numbers(L - 3)})
RECURSIVE Lists(_, _)
Lists(T, got) == LET more == Short({a \o <<Space>> \o b : a \in got, b \in T}) IN IF more \subseteq got THEN got ELSE Lists(T, got \cup more)
GLang == [f \in 0..3 |-> Lists(Terms(f), Terms(f))]
LTermsOf == Short({n \o <<Ex, Under>> \o d : n \in Numbers(L - 3), d \in {e \in Ds(L - 3) : \E u \in DOMAIN e : e[u] # 48}})
LFirst == LTermsOf \cup Short({<<Minus>> \o t : t \in LTermsOf})
RECURSIVE Sums(_)
Sums(got) == LET more == Short({a \o <<g>> \o b : a \in got, g \in {Plus, Minus}, b \in LTermsOf}) IN IF more \subseteq got THEN got ELSE Sums(got \cup more)
LLang == Sums(LFirst)
Safe == ph = 1 =>
  IF Kind = 0
  THEN /\ \A f \in 0..3 : (s \in GLang[f]) <=> (f \in Forms(s))
       /\ Cardinality(Forms(s)) <= 1
       /\ Forms(s) # {} => Len(Triples(s)) = Cardinality(Where(s, Space)) + 1
  ELSE LET ts == LTerms(s) IN
       /\ (s \in LLang) <=> (s # <<>> /\ \A u \in DOMAIN ts : LTerm(ts[u], u = 1))
       /\ Linear(s) => Cardinality({j \in 1..LSize(s) : LVector(s, LSize(s))[j] # 0}) <= Len(ts)
=============================================================================
