---------------------------- MODULE DisjointSet ----------------------------
(***************************************************************************)
(* The abstract disjoint-set object of pytimize.utilities.DisjointSet.     *)
(* State: the items, the group of every item and the representative that  *)
(* has been revealed for it (0: none since the last union of that group). *)
(* Every action carries the result the caller sees.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES items, group, rep, alive
dsvars == <<items, group, rep, alive>>

Ok(v)  == [k |-> "ok", v |-> v]
Error  == [k |-> "exc", v |-> 0]

DSInit == items = {} /\ group = <<>> /\ rep = <<>> /\ alive = FALSE

HasDuplicates(s) == \E p, q \in DOMAIN s : p # q /\ s[p] = s[q]

Create(s, ret) ==
  IF HasDuplicates(s)
  THEN ret = Error /\ UNCHANGED dsvars
  ELSE /\ ret = Ok(0)
       /\ items' = {s[p] : p \in DOMAIN s}
       /\ group' = [x \in items' |-> {x}]
       /\ rep' = [x \in items' |-> 0]
       /\ alive' = TRUE

Find(x, ret) ==
  /\ alive
  /\ IF x \notin items
     THEN ret = Error /\ UNCHANGED dsvars
     ELSE /\ ret.k = "ok"
          /\ ret.v \in group[x]                      \* a member of its own group
          /\ rep[x] # 0 => ret.v = rep[x]            \* stable between unions
          /\ rep' = [y \in items |-> IF y \in group[x] THEN ret.v ELSE rep[y]]
          /\ UNCHANGED <<items, group, alive>>

Union(a, b, ret) ==
  /\ alive
  /\ IF a \notin items \/ b \notin items
     THEN ret = Error /\ UNCHANGED dsvars
     ELSE /\ ret = Ok(0)
          /\ LET g == group[a] \cup group[b]
             IN /\ group' = [y \in items |-> IF y \in g THEN g ELSE group[y]]
                /\ rep' = [y \in items |-> IF y \in g THEN 0 ELSE rep[y]]
          /\ UNCHANGED <<items, alive>>

(* -- what must hold in every state ------------------------------------- *)
IsPartition ==
  /\ \A x \in items : x \in group[x]
  /\ \A x, y \in items : group[x] = group[y] \/ group[x] \cap group[y] = {}
OneRepresentative ==
  \A x, y \in items : group[x] = group[y] => rep[x] = rep[y]
RepresentativeInGroup == \A x \in items : rep[x] # 0 => rep[x] \in group[x]
=============================================================================
