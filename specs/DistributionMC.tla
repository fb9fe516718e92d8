--------------------------- MODULE DistributionMC ---------------------------
(* The tables and formulas of Distribution against step by step models: a   *)
(* random walk over exact weights computes each distribution from its       *)
(* definition (repeated trials, repeated maxima).                           *)
EXTENDS Distribution, TLC
CONSTANT MaxN
VARIABLES kind, a, n, w        \* w: weights of the outcomes after n trials
vars == <<kind, a, n, w>>
Init == \/ kind = "trials" /\ a \in 0..4 /\ n = 0 /\ w = <<1>>
        \/ kind \in {"max", "min"} /\ a \in 1..4 /\ n = 1 /\ w = [i \in 1..a |-> 1]
\* one more trial: success a/4
Trial == kind = "trials" /\ n < MaxN /\ n' = n + 1 /\ UNCHANGED <<kind, a>>
         /\ w' = [k \in 1..(n + 2) |-> (IF k <= n + 1 THEN (4 - a) * w[k] ELSE 0) + (IF k > 1 THEN a * w[k - 1] ELSE 0)]
\* one more value: the new extreme is v if one of both is v and the other not beyond it
RECURSIVE Upto(_, _, _)
Upto(s, i, j) == IF i > j THEN 0 ELSE s[i] + Upto(s, i + 1, j)
More == kind \in {"max", "min"} /\ n < MaxN /\ n' = n + 1 /\ UNCHANGED <<kind, a>>
        /\ w' = [v \in 1..a |-> IF kind = "max" THEN w[v] * v + Upto(w, 1, v - 1) ELSE w[v] * (a - v + 1) + Upto(w, v + 1, a)]
Next == Trial \/ More
Spec == Init /\ [][Next]_vars
BinomialIs == kind = "trials" => Binom(n, a) = [k \in 1..(n + 1) |-> ToInt(Shr(MulSmall(Nat1(w[k]), 1000000), 2 * n))]
ExtremeIs == kind # "trials" => \A v \in 1..a : w[v] = Extreme(kind, v - 1, a, n)
Whole == /\ \A f \in {"normal", "exponential"} : Sum(Bins(f, <<>>)) \in 999990..1000010
         /\ \A i \in 1..7 : NormalBins[i] = NormalBins[15 - i]
         /\ \A b \in 2..9 : \A q \in 1..3 : Sum(Geom(q, b)) \in 999980..1000000
         /\ \A k \in 5..7 : Sum(Largest(k)) \in 999980..1000000
         /\ \A f \in {"exponential"} : \A i \in 1..8 : Bins(f, <<>>)[i] * 6 \in (Bins(f, <<>>)[i + 1] * 9)..(Bins(f, <<>>)[i + 1] * 10)
ASSUME Whole
============================================================================
