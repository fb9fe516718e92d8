------------------------- MODULE DistributionTrace -------------------------
EXTENDS Distribution, TraceKit
Z3 == [i \in DOMAIN Ev.z |-> ZFrom(Ev.z[i])]
RealEv == IF RealLegal(Ev.f, Ev.a) THEN Ev.code = 0 /\ RealValid(Ev.f, Ev.a, Ev.res) ELSE Ev.code = -1
IntEv == IF IntLegal(Ev.f, Z3, Ev.p) THEN Ev.code = 0 /\ IntValid(Ev.f, Z3, Ev.p, ZFrom(Ev.res)) ELSE Ev.code = -1
\* discrete choice: exact over all engine words; refused if every weight is zero
Discrete == LET W == Sum(Ev.w)  N == Sum(Ev.counts) IN
            IF W = 0 THEN Ev.code = -1
            ELSE Ev.code = 0 /\ Len(Ev.counts) = Len(Ev.w) /\ N > 0 /\ \A i \in DOMAIN Ev.w : Ev.counts[i] * W = N * Ev.w[i]
ExtremeEv == LET W == Pow(Ev.size, Ev.n)  N == Sum(Ev.counts) IN
             Len(Ev.counts) = Ev.size /\ \A v \in 0..(Ev.size - 1) : Ev.counts[v + 1] * W = N * Extreme(Ev.f, v, Ev.size, Ev.n)
Next == \/ Is("real") /\ RealEv
        \/ Is("int") /\ IntEv
        \/ Is("discrete") /\ Discrete
        \/ Is("extreme") /\ ExtremeEv
        \/ Is("hist") /\ Agrees(Ev.f, Ev.p, Ev.from, Ev.to, Ev.n, Ev.counts)
TraceSpec == TKInit /\ [][Next]_l
============================================================================
