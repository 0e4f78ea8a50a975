------------------------------ MODULE RowReduce ------------------------------
(***************************************************************************)
(* Gauss-Jordan elimination over the integers: the rows of a matrix are kept *)
(* primitive (no common divisor) with a positive leading entry, and stand    *)
(* for themselves divided by that entry.  Any row with a nonzero entry may    *)
(* be the pivot; the reduced form does not depend on the choice.              *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
Rows(A) == Len(A)
Cols(A) == Len(A[1])
RECURSIVE GcdOf(_, _)
GcdOf(v, k) == IF k = 0 THEN 0 ELSE Gcd(RAbs(v[k]), GcdOf(v, k - 1))
LeadAt(v) == IF \A j \in DOMAIN v : v[j] = 0 THEN 0 ELSE CHOOSE j \in DOMAIN v : v[j] # 0 /\ \A q \in 1..(j - 1) : v[q] = 0
Primitive(v) == LET g == GcdOf(v, Len(v))
                    k == LeadAt(v)
                IN IF k = 0 THEN v ELSE [j \in DOMAIN v |-> (IF v[k] < 0 THEN -1 ELSE 1) * (v[j] \div g)]
Swap(A, i, k) == [q \in DOMAIN A |-> IF q = i THEN A[k] ELSE IF q = k THEN A[i] ELSE A[q]]
Clear(A, i, j) == LET p == Primitive(A[i])
                  IN [q \in DOMAIN A |-> IF q = i THEN p ELSE Primitive([u \in DOMAIN p |-> A[q][u] * p[j] - A[q][j] * p[u]])]
Pivots(A, i, j) == {k \in i..Rows(A) : A[k][j] # 0}

(* the reduced form, always taking the first possible pivot *)
RECURSIVE Reduce(_, _, _)
Reduce(A, i, j) ==
  IF i > Rows(A) \/ j > Cols(A) THEN A
  ELSE IF Pivots(A, i, j) = {} THEN Reduce(A, i, j + 1)
  ELSE LET k == CHOOSE k \in Pivots(A, i, j) : \A q \in Pivots(A, i, j) : k <= q
       IN Reduce(Clear(Swap(A, i, k), i, j), i + 1, j + 1)
Rref(A) == Reduce(A, 1, 1)

(* A / s is in reduced row echelon form *)
IsReduced(A, s) ==
  /\ \A i, k \in DOMAIN A : i < k /\ LeadAt(A[k]) # 0 => LeadAt(A[i]) # 0 /\ LeadAt(A[i]) < LeadAt(A[k])
  /\ \A i \in DOMAIN A : LeadAt(A[i]) # 0 => /\ A[i][LeadAt(A[i])] = s
                                              /\ \A k \in DOMAIN A : k # i => A[k][LeadAt(A[i])] = 0
=============================================================================
