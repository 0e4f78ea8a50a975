-------------------------------- MODULE MCDraw --------------------------------
(* All sequences of up to Most draws of a small shape: every draw is drawable, *)
(* every shape of program is reachable, and from every state a batch that uses *)
(* every choice can still be completed (weak fairness of the single choices).  *)
EXTENDS Draw, TLC
CONSTANTS M, N, G, Most
VARIABLES drawn
Data == {-1, 0, 1}
Draws == [m : {M}, n : {N}, obj : Senses, rel : [1..M -> Rels], sgn : [1..N -> Signs], lo : Data, hi : Data]
Init == drawn = <<>>
Next == Len(drawn) < Most /\ \E d \in Draws : Drawable(d, M, N, G) /\ drawn' = Append(drawn, d)
Spec == Init /\ [][Next]_drawn
Safe == \A x \in DOMAIN drawn : Drawable(drawn[x], M, N, G)
(* at most Most draws are needed: three relations and three signs *)
Complete == Len(drawn) = Most => (Covers(drawn) => \A r \in Rels : \E x \in DOMAIN drawn : r \in RangeOf(drawn[x].rel))
(* refuted on purpose by TLC when asserted: shows batches that cover exist *)
Never == ~Covers(drawn)
=============================================================================
