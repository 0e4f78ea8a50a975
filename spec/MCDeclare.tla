----------------------------- MODULE MCDeclare ------------------------------
(* A declaration is for good; what was compiled shows the signs declared when *)
(* it was compiled; work on compiled programs is forgotten by the next        *)
(* accepted declaration, and never reaches another formulation.               *)
EXTENDS Declare
CONSTANTS H, N, Most
vars == <<form, progs>>
Decls == [j : 0..NVars, s : {"+", "-"}]
Lists == {<<>>} \cup {<<a>> : a \in Decls} \cup {<<a, b>> : a, b \in Decls}
Next ==
  \E h \in 1..H :
    \/ \E ds \in Lists : Declares(h, ds) \/ Refuses(h, ds)
    \/ \E s \in {"+", "-"} : DeclaresAll(h, s)
    \/ RefusesAll(h)
    \/ Len(progs) < Most /\ Compiles(h)
    \/ \E k \in DOMAIN progs : Works(k)
Init == Begin(H, N)
Spec == Init /\ [][Next]_vars
Safe ==
  /\ \A h \in 1..H : form[h].c # 0 => progs[form[h].c].h = h /\ progs[form[h].c].d = form[h].d
  /\ \A k \in DOMAIN progs : \A j \in 1..NVars : progs[k].d[j] # "f" => form[progs[k].h].d[j] = progs[k].d[j]
Keeps == [][\A h \in 1..H : \A j \in 1..NVars : form[h].d[j] # "f" => form'[h].d[j] = form[h].d[j]]_vars
OneForm == [][Cardinality({h \in 1..H : form'[h] # form[h]}) <= 1]_vars
Snapshots == [][\A k \in DOMAIN progs : progs'[k].d = progs[k].d /\ progs'[k].own >= progs[k].own]_vars
=============================================================================
