---------------------------- MODULE GraphRandom ----------------------------
(* Which graphs each random constructor may return, and for the uniform     *)
(* ones the complete sample space.                                          *)
EXTENDS GraphFamilies
AllPairs(n, d)    == {p \in Up(n) \X Up(n) : p[1] # p[2] /\ (d \/ p[1] < p[2])}
BipPairs(n, m, d) == Bip(n, m).R \cup (IF d THEN Inv(Bip(n, m).R) ELSE {})
KSub(S, k)        == {T \in SUBSET S : Cardinality(T) = k}
IsTreeOn(n, R)    == Cardinality(R) = (IF n = 0 THEN 0 ELSE n - 1) /\ (n > 0 => Reach(Sym(R), 0) = Up(n))
Arborescence(n, R) == Cardinality(R) = n - 1 /\ Reach(R, 0) = Up(n)
Trees(n, d)       == {R \in KSub(AllPairs(n, d), IF n = 0 THEN 0 ELSE n - 1) : IF d THEN Arborescence(n, R) ELSE IsTreeOn(n, R)}
DegreeOf(R, x)    == Cardinality({e \in R : e[1] = x \/ e[2] = x})
\* a degree sequence is graphical: Erdos-Gallai on the sorted sequence
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
RECURSIVE Insert(_, _), SortDesc(_)
Insert(x, s) == IF s = <<>> \/ x >= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
SortDesc(s)  == IF s = <<>> THEN <<>> ELSE Insert(Head(s), SortDesc(Tail(s)))
Graphical(deg) == LET s == SortDesc(deg)  n == Len(s) IN
   /\ SumTo(s, n) % 2 = 0
   /\ \A k \in 1..n : SumTo(s, k) <= k * (k - 1) + SumTo([i \in 1..n |-> IF i > k THEN Min(s[i], k) ELSE 0], n)
============================================================================
