---------------------------- MODULE UnionFind ----------------------------
(* A union-find structure is a partition of 0..n-1 (and of nothing else).  *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES n, parts
ufvars == <<n, parts>>
Elems == 0..(n - 1)
Part(x) == CHOOSE p \in parts : x \in p
Open(k) == n' = k /\ parts' = {{x} : x \in 0..(k - 1)}
Connected(a, b) == b \in Part(a)
Join(a, b) == /\ a \in Elems /\ b \in Elems
              /\ parts' = (parts \ {Part(a), Part(b)}) \cup {Part(a) \cup Part(b)}
              /\ UNCHANGED n
=========================================================================
