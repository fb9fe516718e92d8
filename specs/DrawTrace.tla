----------------------------- MODULE DrawTrace -----------------------------
EXTENDS Draw, TraceKit
vars == <<words, l>>
TInit == TKInit /\ words = <<>>
\* the engine is given new words
New == Is("new") /\ words' = Ev.words
\* integer in [lo, hi): value, number of words taken; code -1: refused
IntEv == /\ Is("int")
         /\ LET lo == ZFrom(Ev.lo)
                hi == ZFrom(Ev.hi)
            IN IF ~ZLt(lo, hi) THEN Ev.code = -1 /\ Ev.used = 0 /\ UNCHANGED words
               ELSE LET r == Between(words, lo, hi) IN
                    IF r.n = 0 THEN Ev.used > Len(words) /\ InRange(ZFrom(Ev.res), lo, hi) /\ Ev.code = 0 /\ words' = <<>>
                    ELSE Ev.code = 0 /\ Ev.used = r.n /\ ZFrom(Ev.res) = r.v /\ InRange(r.v, lo, hi) /\ words' = Drop(words, r.n)
FullEv == Is("full") /\ words # <<>> /\ Ev.used = 1 /\ ZFrom(Ev.res) = Signed(FromDigits(words[1])) /\ words' = Drop(words, 1)
BitEv == Is("bit") /\ words # <<>> /\ Ev.used = 1 /\ words' = Drop(words, 1)
\* reals: bounds are exact numbers, kind 0: [0,1)  1: [0,hi)  2: [lo,hi)
Zero == [c |-> "fin", neg |-> FALSE, m |-> <<48>>, k |-> 0]
One == [c |-> "fin", neg |-> FALSE, m |-> <<49>>, k |-> 0]
RealEv == /\ Is("real")
          /\ LET lo == IF Ev.kind = 2 THEN Ev.lo ELSE Zero
                 hi == IF Ev.kind = 0 THEN One ELSE Ev.hi
                 legal == lo.c = "fin" /\ hi.c = "fin" /\ RLt(lo, hi)
             IN IF legal THEN Ev.code = 0 /\ Ev.res.c = "fin" /\ ~RLt(Ev.res, lo) /\ RLt(Ev.res, hi) ELSE Ev.code = -1
          /\ words' = <<>>
\* exhaustive grids of engine words: every value of the range equally often
GridEv == /\ Is("grid") /\ Len(Ev.vals) = Ev.size /\ Len(Ev.counts) = Ev.size
          /\ (\A i \in DOMAIN Ev.vals : Ev.vals[i] = Ev.lo + (i - 1)) /\ (\A i \in DOMAIN Ev.counts : Ev.counts[i] = Ev.counts[1])
          /\ UNCHANGED words
\* long run statistics: n samples over equally likely bins; the bound is beyond 12 standard deviations
RECURSIVE SumSq(_, _, _)
SumSq(c, m, i) == IF i = 0 THEN 0 ELSE (c[i] - m) * (c[i] - m) + SumSq(c, m, i - 1)
RECURSIVE Sum(_, _)
Sum(c, i) == IF i = 0 THEN 0 ELSE c[i] + Sum(c, i - 1)
HistEv == /\ Is("hist") /\ LET k == Len(Ev.counts)
                                m == Ev.n \div k
                           IN Sum(Ev.counts, k) = Ev.n /\ Ev.n % k = 0 /\ SumSq(Ev.counts, m, k) <= m * (k + 100)
          /\ UNCHANGED words
Next == New \/ IntEv \/ FullEv \/ BitEv \/ RealEv \/ GridEv \/ HistEv
TraceSpec == TInit /\ [][Next]_vars
============================================================================
