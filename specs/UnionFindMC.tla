--------------------------- MODULE UnionFindMC ---------------------------
(* The forest representation (union by rank, path compression in any order) *)
(* refines the partition.  parent[x] < 0 marks a root of rank -parent[x]-1. *)
EXTENDS UnionFind
CONSTANT N
VARIABLE parent
vars == <<ufvars, parent>>
RECURSIVE Find(_)
Find(x) == IF parent[x] < 0 THEN x ELSE Find(parent[x])
Init == n = N /\ parts = {{x} : x \in Elems} /\ parent = [x \in Elems |-> -1]
Compress(x) == /\ parent[x] >= 0 /\ parent' = [parent EXCEPT ![x] = Find(x)] /\ UNCHANGED ufvars
Unite(a, b) ==
  LET x == Find(a)  y == Find(b) IN
  /\ Join(a, b)
  /\ parent' = IF x = y THEN parent
               ELSE IF parent[x] > parent[y] THEN [parent EXCEPT ![x] = y]
               ELSE IF parent[y] > parent[x] THEN [parent EXCEPT ![y] = x]
               ELSE [parent EXCEPT ![x] = y, ![y] = parent[y] - 1]
Next == \E a, b \in Elems : Unite(a, b) \/ Compress(a)
Spec == Init /\ [][Next]_vars
Refines == \A a, b \in Elems : (Find(a) = Find(b)) <=> Connected(a, b)
IsPartition == UNION parts = Elems /\ \A p, q \in parts : p = q \/ p \cap q = {}
RankBound == \A x \in Elems : parent[x] < 0 => 2 ^ (-parent[x] - 1) <= Cardinality(Part(x))
==========================================================================
