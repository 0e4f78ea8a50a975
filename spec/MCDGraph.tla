------------------------------ MODULE MCDGraph ------------------------------
EXTENDS DGraph, Json
CONSTANTS N, W, Depth, Random, Record
VARIABLES hist, done, last
vars == <<g, hist, done, last>>
Vs == 1..N
Kinds == {"none", "one", "pair", "short"}
Cmds ==
  UNION {
    {[Cmd("addarc", u, v, w) EXCEPT !.dk = d, !.d1 = 3000, !.d2 = 7000] : u \in Vs, v \in Vs, w \in W, d \in Kinds},
    {Cmd("rmarc", u, v, x) : u \in Vs, v \in Vs, x \in {0, 1}},
    {Cmd("setarc", u, v, w) : u \in Vs, v \in Vs, w \in W},
    {Cmd(o, u, 0, w) : o \in {"addnode", "setnode"}, u \in Vs, w \in W},
    {Cmd("hasarc", u, v, 0) : u \in Vs, v \in Vs},
    {Cmd(o, u, 0, 0) : o \in {"hasnode", "conns"}, u \in Vs}, {Cmd("scribble", 0, 0, 0)} }
Names == <<"addarc", "addarc", "addarc", "addarc", "rmarc", "rmarc", "rmarc", "setarc", "addnode", "setnode", "hasarc", "hasnode", "conns">>
Pick(S) == RandomElement(S)
OneCmd == LET o == Names[Pick(1..Len(Names))]
              c == Cmd(o, Pick(Vs), IF o \in {"addnode", "setnode", "hasnode", "conns"} THEN 0 ELSE Pick(Vs), IF o = "rmarc" THEN Pick({0, 1}) ELSE Pick(W))
          IN IF o = "addarc" THEN [c EXCEPT !.dk = Pick(Kinds), !.d1 = Pick({3000, -2000}), !.d2 = Pick({7000, 500})] ELSE c
Choices == IF Random THEN {OneCmd} ELSE Cmds
Rets == {Err} \cup {Ok(v) : v \in W \cup 0..(2 * N)}
Init == g = Empty /\ hist = <<>> /\ done = FALSE /\ last = <<>>
Step == /\ done' = done /\ Len(hist) < Depth
        /\ \E c \in Choices : \E r \in Rets :
             /\ Act(c, r)
             /\ last' = IF Record THEN <<>> ELSE <<c, r>>
             /\ hist' = IF Record THEN Append(hist, c) ELSE hist
Emit == /\ Record /\ Len(hist) = Depth /\ ~done /\ done' = TRUE
        /\ PrintT("GEN" \o ToJson(hist)) /\ UNCHANGED <<g, hist, last>>
Spec == Init /\ [][Step \/ Emit]_vars
View == g
Refusals == [][(last' # <<>> /\ last'[2] = Err) => g' = g]_vars
(* removing an arc on request removes only endpoints, and only bare ones *)
RemovalExact == [][(last' # <<>> /\ last'[1].op = "rmarc" /\ last'[2].k = "ok") =>
   LET c == last'[1] IN
     /\ DOMAIN g.a \ DOMAIN g'.a = {<<c.u, c.v>>}
     /\ DOMAIN g.n \ DOMAIN g'.n \subseteq {c.u, c.v}
     /\ c.w = 0 => DOMAIN g'.n = DOMAIN g.n
     /\ c.w = 1 => \A x \in {c.u, c.v} : x \in DOMAIN g'.n <=> ArcsAt(g', x) # {}]_vars
=============================================================================
