------------------------------ MODULE MaxFlow ------------------------------
(***************************************************************************)
(* The two maximum flow methods as nondeterministic machines over one       *)
(* capacitated directed graph: augmenting along any residual path, and      *)
(* pushing and relabelling any active node.  Flow sent from u to v first    *)
(* cancels flow on <<v, u>>, then uses <<u, v>>.                             *)
(***************************************************************************)
EXTENDS UGraphOps, TLC
VARIABLES flow, height
fvars == <<flow, height>>
MinI(a, b) == IF a <= b THEN a ELSE b

Cancelled(f, u, v, d) == IF <<v, u>> \in DOMAIN f THEN MinI(f[<<v, u>>], d) ELSE 0
Send(f, u, v, d) ==
  LET k == Cancelled(f, u, v, d)
  IN [a \in DOMAIN f |-> IF a = <<v, u>> THEN f[a] - k ELSE IF a = <<u, v>> THEN f[a] + d - k ELSE f[a]]

Reach(V, A, cap, f, s) ==
  LET RECURSIVE go(_)
      go(S) == LET T == S \cup {v \in V : \E u \in S : ResidualCap(A, cap, f, u, v) > 0} IN IF T = S THEN S ELSE go(T)
  IN go({s})
(* simple residual paths from s to t as sequences of nodes *)
RECURSIVE Paths(_, _, _, _, _, _)
Paths(V, A, cap, f, p, t) ==
  IF p[Len(p)] = t THEN {p}
  ELSE UNION {Paths(V, A, cap, f, Append(p, v), t) : v \in {v \in V : (\A k \in DOMAIN p : p[k] # v) /\ ResidualCap(A, cap, f, p[Len(p)], v) > 0}}
Bottleneck(A, cap, f, p) == LET S == {ResidualCap(A, cap, f, p[k], p[k + 1]) : k \in 1..(Len(p) - 1)} IN CHOOSE m \in S : \A x \in S : m <= x
RECURSIVE Along(_, _, _, _)
Along(f, p, d, k) == IF k = Len(p) THEN f ELSE Along(Send(f, p[k], p[k + 1], d), p, d, k + 1)

BeginAugment(A) == flow = [a \in A |-> 0] /\ height = <<>>
Augment(V, A, cap, s, t) ==
  /\ \E p \in Paths(V, A, cap, flow, <<s>>, t) : flow' = Along(flow, p, Bottleneck(A, cap, flow, p), 1)
  /\ UNCHANGED height

BeginPush(V, A, cap, s) == flow = [a \in A |-> IF a[1] = s THEN cap[a] ELSE 0] /\ height = [x \in V |-> IF x = s THEN Cardinality(V) ELSE 0]
Active(V, A, s, t) == {x \in V \ {s, t} : Excess(A, flow, x) > 0}
Push(V, A, cap, s, t) ==
  \E u \in Active(V, A, s, t) : \E v \in V :
    /\ ResidualCap(A, cap, flow, u, v) > 0 /\ height[v] = height[u] - 1
    /\ flow' = Send(flow, u, v, MinI(Excess(A, flow, u), ResidualCap(A, cap, flow, u, v)))
    /\ UNCHANGED height
Relabel(V, A, cap, s, t) ==
  \E u \in Active(V, A, s, t) :
    LET S == {height[v] : v \in {v \in V : ResidualCap(A, cap, flow, u, v) > 0}} IN
    /\ \A h \in S : h # height[u] - 1
    /\ height' = [height EXCEPT ![u] = 1 + CHOOSE h \in S : \A k \in S : h <= k]
    /\ UNCHANGED flow
=============================================================================
