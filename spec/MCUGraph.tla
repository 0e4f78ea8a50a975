------------------------------ MODULE MCUGraph ------------------------------
(* Exhaustive exploration / behaviour generation for UGraph. *)
EXTENDS UGraph, Json
CONSTANTS N, H, W, Depth, Random, Record
VARIABLES hist, done, last
vars == <<store, hist, done, last>>

Vs == 1..N
Hs == Handles
Cmds ==
  UNION {
    {Cmd("addedge", h, a, b, w) : h \in Hs, a \in Vs, b \in Vs, w \in W \cup {-1000}},
    {Cmd(o, h, a, b, 0) : o \in {"rmedge", "getedge", "hasedge"}, h \in Hs, a \in Vs, b \in Vs},
    {Cmd("addvert", h, a, 0, w) : h \in Hs, a \in Vs, w \in W \cup {-1000}},
    {Cmd("setedge", h, a, b, w) : h \in Hs, a \in Vs, b \in Vs, w \in W},
    {Cmd("setvert", h, a, 0, w) : h \in Hs, a \in Vs, w \in W},
    {Cmd(o, h, a, 0, 0) : o \in {"getvert", "hasvert"}, h \in Hs, a \in Vs},
    {Cmd(o, h, 0, 0, 0) : o \in {"isempty", "scribble"}, h \in Hs},
    {Cmd("copy", h, 0, k, 0) : h \in Hs, k \in 1..H},
    {Cmd("equal", h, 0, k, 0) : h \in Hs, k \in Hs} }
OpNames == <<"addedge", "addedge", "addedge", "rmedge", "rmedge", "addvert", "setedge", "setvert", "getedge", "getvert",
             "hasedge", "hasvert", "isempty", "scribble", "scribble", "copy", "copy", "equal", "equal">>
Pick(S) == RandomElement(S)
OneCmd == LET o == OpNames[Pick(1..Len(OpNames))]  h == Pick(Hs)
          IN Cmd(o, h, Pick(Vs), IF o = "copy" THEN Pick(1..H) ELSE IF o = "equal" THEN Pick(Hs) ELSE Pick(Vs),
                 IF o \in {"addedge", "addvert"} THEN Pick(W \cup {-1000}) ELSE Pick(W))
Choices == IF Random THEN {OneCmd} ELSE Cmds
Rets == {Err} \cup {Ok(v) : v \in W \cup {0, 1}}

Init == store = (1 :> EmptyGraph) /\ hist = <<>> /\ done = FALSE /\ last = <<>>
Step == /\ done' = done /\ Len(hist) < Depth
        /\ \E c \in Choices : \E r \in Rets :
             /\ Act(c, r)
             /\ last' = IF Record THEN <<>> ELSE <<c, r>>
             /\ hist' = IF Record THEN Append(hist, c) ELSE hist
Emit == /\ Record /\ Len(hist) = Depth /\ ~done /\ done' = TRUE
        /\ PrintT("GEN" \o ToJson(hist)) /\ UNCHANGED <<store, hist, last>>
Spec == Init /\ [][Step \/ Emit]_vars
View == store
HistView == <<hist, done>>

(* Frame conditions, as action properties. *)
Refusals == [][(last' # <<>> /\ last'[2] = Err) => store' = store]_vars
OnlyReceiver == [][(last' # <<>>) => LET c == last'[1] IN
    \A h \in Handles : h # c.h /\ ~(c.op = "copy" /\ h = c.b) => store'[h] = store[h]]_vars
Queries == [][(last' # <<>> /\ last'[1].op \in {"getedge", "getvert", "hasedge", "hasvert", "isempty", "equal", "scribble"}) => store' = store]_vars
=============================================================================
