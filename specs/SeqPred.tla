------------------------------- MODULE SeqPred -------------------------------
(* Predicates on finite sequences and what counts as a witness.  Values are  *)
(* compared by Lt, which the user of the module chooses (integers or BigNat  *)
(* integers).                                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS LtV(_, _)
\* the first position (index of the second element, from 0) of an adjacent pair with P
Adj(s, P(_, _)) == {i \in 1..(Len(s) - 1) : P(s[i], s[i + 1])}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
First(s, P(_, _)) == MinOf(Adj(s, P))
AnyAdj(s, P(_, _)) == Adj(s, P) # {}
Inc(a, b) == LtV(a, b)
NonDec(a, b) == ~LtV(b, a)
Dec(a, b) == LtV(b, a)
NonInc(a, b) == ~LtV(a, b)
Same(a, b) == ~LtV(a, b) /\ ~LtV(b, a)
Count(s, x) == Cardinality({i \in DOMAIN s : Same(s[i], x)})
Distinct(s) == \A i, j \in DOMAIN s : i < j => ~Same(s[i], s[j])
Repeated(s, x) == Count(s, x) >= 2
\* s is a permutation of t
PermOf(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
===============================================================================
