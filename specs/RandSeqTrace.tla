--------------------------- MODULE RandSeqTrace ---------------------------
EXTENDS RandSeq, TraceKit, BigNat
One == IF Ev.ok THEN (Legal(Ev.f, Ev.p, Ev.w) \/ Open(Ev.f, Ev.p, Ev.w)) /\ Valid(Ev.f, Ev.p, Ev.w, Ev.res, Ev.a)
       ELSE ~Legal(Ev.f, Ev.p, Ev.w) \/ Open(Ev.f, Ev.p, Ev.w)
\* the same for numbers of any size (decimal texts); p = <<lo, hi>>
ZIn(z) == ZLe(ZFrom(Ev.lo), z) /\ ZLt(z, ZFrom(Ev.hi))
Big == LET r == [i \in DOMAIN Ev.res |-> ZFrom(Ev.res[i])] IN
       /\ Len(r) = Ev.n /\ (\A i \in DOMAIN r : ZIn(r[i]))
       /\ CASE Ev.f = "distinct" -> Cardinality(Range(r)) = Len(r)
            [] Ev.f = "inc" -> \A i \in 1..(Len(r) - 1) : ZLt(r[i], r[i + 1])
            [] Ev.f = "dec" -> \A i \in 1..(Len(r) - 1) : ZLt(r[i + 1], r[i])
            [] Ev.f = "ndec" -> \A i \in 1..(Len(r) - 1) : ZLe(r[i], r[i + 1])
            [] Ev.f = "ninc" -> \A i \in 1..(Len(r) - 1) : ZLe(r[i + 1], r[i])
            [] Ev.f = "perm" -> Cardinality(Range(r)) = Len(r)
            [] Ev.f = "mult" -> TRUE
\* complete enumeration of equally likely engine outputs
Tally == LET S == All(Ev.f, Ev.p, Ev.w) IN
         /\ Range(Ev.outcomes) = S /\ Len(Ev.outcomes) = Cardinality(S)
         /\ \A i \in DOMAIN Ev.counts : Ev.counts[i] = Ev.counts[1] /\ Ev.counts[i] > 0
\* long runs: no outcome is missing and the frequencies agree; the bound is far beyond chance
RECURSIVE SumSq(_, _, _)
SumSq(c, m, i) == IF i = 0 THEN 0 ELSE (c[i] - m) * (c[i] - m) + SumSq(c, m, i - 1)
Hist == LET S == All(Ev.f, Ev.p, Ev.w)  k == Cardinality(S)  m == Ev.n \div k IN
        /\ Range(Ev.outcomes) = S /\ Len(Ev.outcomes) = k /\ Sum(Ev.counts) = Ev.n
        /\ SumSq(Ev.counts, m, k) <= (m + 1) * (2 * k + 120)
NextR == (Is("one") /\ One) \/ (Is("big") /\ Big) \/ (Is("tally") /\ Tally) \/ (Is("hist") /\ Hist)
TraceSpec == TKInit /\ [][NextR]_l
============================================================================
