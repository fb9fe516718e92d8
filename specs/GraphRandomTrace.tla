------------------------- MODULE GraphRandomTrace -------------------------
EXTENDS GraphRandom, TraceKit
D == Ev.dir
P(i) == Ev.p[i]
ToR(s) == {Key(D, s[i][1], s[i][2]) : i \in DOMAIN s}
Simple(j) == /\ j.lo = 0 /\ j.m = Len(j.edges) /\ Cardinality(ToR(j.edges)) = j.m
             /\ \A e \in ToR(j.edges) : e[1] # e[2] /\ e[1] \in Up(j.n) /\ e[2] \in Up(j.n)
R == ToR(Ev.res.edges)
N == Ev.res.n
\* m edges out of S; impossible requests are refused
Sample(n, m, S) == IF m < 0 \/ m > Cardinality(S) THEN ~Ev.ok
                   ELSE Ev.ok /\ Simple(Ev.res) /\ N = n /\ Ev.res.m = m /\ R \subseteq S
One ==
  CASE Ev.f = "tree"   -> Ev.ok /\ Simple(Ev.res) /\ N = P(1) /\ IF D THEN Arborescence(N, R) ELSE IsTreeOn(N, R)
    [] Ev.f = "graph"  -> Sample(P(1), P(2), AllPairs(P(1), D))
    [] Ev.f = "bip"    -> Sample(P(1) + P(2), P(3), BipPairs(P(1), P(2), D))
    \* edge probability P(2)/P(3)
    [] Ev.f = "graphp" -> /\ Ev.ok /\ Simple(Ev.res) /\ N = P(1)
                          /\ (P(2) = 0 => R = {}) /\ (P(2) = P(3) => R = AllPairs(N, D))
    [] Ev.f = "bipp"   -> LET S == BipPairs(P(1), P(2), D) IN
                          /\ Ev.ok /\ Simple(Ev.res) /\ N = P(1) + P(2) /\ R \subseteq S
                          /\ (P(3) = 0 => R = {}) /\ (P(3) = P(4) => R = S)
    [] Ev.f = "grow"   -> /\ Ev.ok = (0 <= P(2) /\ P(2) <= P(3))
                          /\ (Ev.ok => /\ Simple(Ev.res) /\ N = P(1)
                                       /\ \A i \in Up(N) : Cardinality({e \in R : Max(e[1], e[2]) = i}) * P(3) <= Min(i * P(3), P(2) * (i + 1)))
    [] Ev.f = "deg"    -> /\ Ev.ok = Graphical(Ev.p)
                          /\ (Ev.ok => /\ Simple(Ev.res) /\ N = Len(Ev.p)
                                       /\ \A x \in Up(N) : DegreeOf(R, x) = Ev.p[x + 1])
\* complete enumeration of the engine's equally likely outputs
Space == CASE Ev.f = "tree" -> Trees(P(1), D)
           [] Ev.f = "graph" -> KSub(AllPairs(P(1), D), P(2))
           [] Ev.f = "bip" -> KSub(BipPairs(P(1), P(2), D), P(3))
           [] Ev.f = "sub" -> KSub(ToR(Ev.base), P(1))
           [] Ev.f = "perm" -> {Keys(Map([dir |-> D, lo |-> 0, n |-> P(1), E |-> {<<e[1], e[2], 0>> : e \in ToR(Ev.base)}], f)) : f \in Perms(Up(P(1)))}
Tally == LET rs == Ev.outcomes  cs == Ev.counts  S == Space IN
         /\ {ToR(rs[i]) : i \in DOMAIN rs} = S
         /\ Len(rs) = Cardinality(S)
         /\ \A i \in DOMAIN cs : cs[i] = cs[1] /\ cs[i] > 0
\* number of edges over many draws: within 9 standard deviations of the binomial mean
Mean == LET q == Ev.pairs * Ev.runs   \* Bernoulli trials with probability num/den
            dev == Ev.total * Ev.den - q * Ev.num IN
        dev * dev <= 81 * q * Ev.num * (Ev.den - Ev.num)
NextR == \/ Is("one") /\ One
         \/ Is("tally") /\ Tally
         \/ Is("mean") /\ Mean
TraceSpec == TKInit /\ [][NextR]_l
===========================================================================
