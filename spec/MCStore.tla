------------------------------- MODULE MCStore -------------------------------
(* Why programs can be treated as values: programs own cells (their arrays),   *)
(* construction and copying write fresh cells, operations asked to work in     *)
(* place write only the receiver's cells, and the caller keeps cells of its    *)
(* own.  "seen" is what each program should denote, tracked without cells.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Progs, Cells, Vals
VARIABLES own,      \* cell of a program, 0 = not there
          heap,     \* contents of the cells
          caller,   \* cells the caller holds
          seen      \* ghost: value of a program, 0 = not there
vars == <<own, heap, caller, seen>>
Free == {c \in Cells : c \notin caller /\ \A p \in Progs : own[p] # c}
Init == own = [p \in Progs |-> 0] /\ heap = [c \in Cells |-> 0] /\ caller = {} /\ seen = [p \in Progs |-> 0]
There(p) == own[p] # 0
Alloc == \E c \in Free, v \in Vals : caller' = caller \cup {c} /\ heap' = [heap EXCEPT ![c] = v] /\ UNCHANGED <<own, seen>>
Poke == \E c \in caller, v \in Vals : heap' = [heap EXCEPT ![c] = v] /\ UNCHANGED <<own, caller, seen>>
New(p) == \E c \in caller, f \in Free : /\ ~There(p) /\ own' = [own EXCEPT ![p] = f] /\ heap' = [heap EXCEPT ![f] = heap[c]]
                                        /\ seen' = [seen EXCEPT ![p] = heap[c]] /\ UNCHANGED caller
(* not in place: a copy, then the operation on the copy *)
Derive(p, q) == \E f \in Free, v \in Vals : /\ There(p) /\ ~There(q) /\ own' = [own EXCEPT ![q] = f]
                                           /\ heap' = [heap EXCEPT ![f] = v] /\ seen' = [seen EXCEPT ![q] = v] /\ UNCHANGED caller
Edit(p) == \E v \in Vals : There(p) /\ heap' = [heap EXCEPT ![own[p]] = v] /\ seen' = [seen EXCEPT ![p] = v] /\ UNCHANGED <<own, caller>>
Drop(p) == There(p) /\ own' = [own EXCEPT ![p] = 0] /\ seen' = [seen EXCEPT ![p] = 0] /\ UNCHANGED <<heap, caller>>
Next == Alloc \/ Poke \/ (\E p \in Progs : New(p) \/ Edit(p) \/ Drop(p)) \/ (\E p, q \in Progs : Derive(p, q))
Spec == Init /\ [][Next]_vars
Safe == /\ \A p \in Progs : There(p) => heap[own[p]] = seen[p]
        /\ \A p, q \in Progs : p # q /\ There(p) => own[p] # own[q]
        /\ \A p \in Progs : own[p] \notin caller
(* every step changes what at most one program denotes *)
OneAtATime == [][\A p, q \in Progs : p # q => seen'[p] = seen[p] \/ seen'[q] = seen[q]]_vars
=============================================================================
