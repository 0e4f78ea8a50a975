-------------------------- MODULE TraceFormulation --------------------------
(* F01: recorded formulations.  Record: n (variables available), nds, obj, o  *)
(* (objective node), cons = <<left node, relation, right node>>, k, q (the     *)
(* compiled program over the scale S, as read back), acc (what the objective    *)
(* reports of itself: sense s, coefficients c, constant z; k = "none" if not     *)
(* asked), mis (uses [op, ta, tb, k] of operands of the types ta and tb).        *)
EXTENDS Formulation, TLC, Json, IOUtils, SequencesExt
VARIABLES i, l
Recs == ndJsonDeserialize(IOEnv.TRACE)
MaxOf(T) == CHOOSE a \in T : \A b \in T : b <= a
Failing(r) ==
  LET fs == Means(r.n, r.nds, <<>>)
      f == fs[r.o]
      rows == [u \in DOMAIN r.cons |-> RowOf(r.n, fs[r.cons[u][1]], fs[r.cons[u][3]])]
      used == f.mn \cup UNION {rows[u].mn : u \in DOMAIN rows}
      need == {1} \cup {j \in used : f.cf[j] # 0 \/ \E u \in DOMAIN rows : rows[u].cf[j] # 0}
      q == r.q
      RowIs(u) == \/ q.rel[u] = r.cons[u][2] /\ q.b[u] = -rows[u].k /\ \A j \in 1..q.n : q.A[u][j] = rows[u].cf[j]
                  \/ q.rel[u] = Mirror(r.cons[u][2]) /\ q.b[u] = rows[u].k /\ \A j \in 1..q.n : q.A[u][j] = -rows[u].cf[j]
      mis == IF \A u \in DOMAIN r.mis : r.mis[u].k = (IF Meaningful(r.mis[u].op, r.mis[u].ta, r.mis[u].tb) THEN "ok" ELSE "exc") THEN {} ELSE {"misuse"}
      acc == r.acc
  IN mis \cup
     IF r.k # "ok" THEN {"outcome-" \o r.k}
     ELSE IF q.k # "ok" THEN {"malformed"}
     ELSE IF q.n < MaxOf(need) \/ q.n > MaxOf(used \cup {1}) THEN {"variables"}
     ELSE IF q.m # Len(r.cons) THEN {"rows"}
     ELSE (IF q.obj = r.obj THEN {} ELSE {"sense"})
          \cup (IF \A j \in 1..q.n : q.c[j] = f.cf[j] THEN {} ELSE {"objective"})
          \cup (IF q.z = f.k THEN {} ELSE {"constant"})
          \cup (IF \A u \in DOMAIN rows : RowIs(u) THEN {} ELSE {"row"})
          \cup (IF acc.k = "none" \/ (acc.k = "ok" /\ acc.s = r.obj /\ acc.z = f.k /\ \A j \in 1..r.n : (IF j <= Len(acc.c) THEN acc.c[j] ELSE 0) = f.cf[j])
                THEN {} ELSE {"parts"})
          \cup (IF \A j \in 1..q.n : q.sgn[j] = "f" THEN {} ELSE {"signs"})
INSTANCE OneStep
=============================================================================
