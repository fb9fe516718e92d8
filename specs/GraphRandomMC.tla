--------------------------- MODULE GraphRandomMC ---------------------------
(* Counting theorems for the sample spaces, Erdos-Gallai against brute      *)
(* force, and the index decoding idea: pairs are a bijection of 0..m-1.     *)
EXTENDS GraphRandom, TLC
CONSTANT K
VARIABLES n, d
Init == n \in 1..K /\ d \in BOOLEAN
Next == UNCHANGED <<n, d>>
Spec == Init /\ [][Next]_<<n, d>>
Pow(b, e) == IF e <= 0 THEN 1 ELSE b ^ e
Counts == /\ Cardinality(AllPairs(n, d)) = IF d THEN n * (n - 1) ELSE (n * (n - 1)) \div 2
          /\ (n <= 4 => Cardinality(Trees(n, d)) = Pow(n, n - 2))
          /\ (n <= 4 /\ ~d => \A deg \in [1..n -> 0..n] :
                Graphical(deg) <=> \E R \in SUBSET AllPairs(n, FALSE) : \A x \in Up(n) : DegreeOf(R, x) = deg[x + 1])
============================================================================
