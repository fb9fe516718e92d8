--------------------------- MODULE NumTheoryTrace ---------------------------
EXTENDS NumTheory, TraceKit
vars == <<l>>
TInit == TKInit
Pos(m) == ~m.s /\ m.m # <<>>
Res(m, r) == Ev.code = 0 /\ ~r.s /\ Lt(r.m, m.m)
ApplyEv == Is("app") /\ LET x == ZFrom(Ev.x)  m == ZFrom(Ev.m)  r == ZFrom(Ev.r) IN Res(m, r) /\ r.m = ModZ(x, m.m)
MulEv == Is("mul") /\ LET a == ZFrom(Ev.a)  b == ZFrom(Ev.b)  m == ZFrom(Ev.m)  r == ZFrom(Ev.r)
                      IN IF ~Pos(m) THEN Ev.code = -1 ELSE Res(m, r) /\ r.m = MulM(ModZ(a, m.m), ModZ(b, m.m), m.m)
PowEv == Is("pow") /\ LET b == ZFrom(Ev.a)  x == ZFrom(Ev.b)  m == ZFrom(Ev.m)  r == ZFrom(Ev.r)
                      IN IF ~Pos(m) \/ x.s THEN Ev.code = -1 ELSE Res(m, r) /\ r.m = PowM(ModZ(b, m.m), x.m, m.m)
InvEv == Is("inv") /\ LET x == ZFrom(Ev.x)  m == ZFrom(Ev.m)  r == ZFrom(Ev.r)
                      IN IF ~Pos(m) THEN Ev.code = -1
                         ELSE IF Gcd(m.m, ModZ(x, m.m)) = <<1>> THEN Res(m, r) /\ IsInverse(r.m, x, m.m)
                         ELSE Ev.code = 0 /\ r = ZInt(-1)
\* primality of one number; a number known to be composite comes with a factor
PrimeEv == Is("prime") /\ LET n == ZFrom(Ev.n)
                              f == ZFrom(Ev.f)
                          IN IF Ev.f # <<48>> /\ Lt(<<1>>, f.m) /\ Lt(f.m, n.m) /\ Mod(n.m, f.m) = <<>> THEN ~Ev.r
                             ELSE Ev.r = PrimeZ(n)
\* all primes found among lo..hi-1 by testing every number, small numbers
BlockEv == Is("block") /\ SmallPrimesAre(Ev.vals, Ev.lo, Ev.hi)
Dec(x) == ZFrom(x)
ListEv == Is("list") /\ LET lo == ZFrom(Ev.lo)  hi == ZFrom(Ev.hi)
                        IN IF ~ZLt(lo, hi) THEN Ev.code = -1
                           ELSE Ev.code = 0 /\ [i \in DOMAIN Ev.vals |-> ZFrom(Ev.vals[i])] = PrimesFrom(lo, hi, <<>>)
SListEv == Is("slist") /\ IF Ev.lo >= Ev.hi THEN Ev.code = -1
                          ELSE Ev.code = 0 /\ SmallPrimesAre(Ev.vals, IF Ev.lo < 0 THEN 0 ELSE Ev.lo, Ev.hi)
\* neighbouring entries i-1, i of a very long list: in order, primes, and nothing left out between them
SampleEv == Is("sample") /\ LET p == ZFrom(Ev.p)  q == ZFrom(Ev.q)
                            IN PrimesFrom(p, ZAdd(q, ZInt(1)), <<>>) = <<p, q>>
\* the ends of a very long list
EndsEv == Is("ends") /\ PrimesFrom(ZFrom(Ev.lo), ZAdd(ZFrom(Ev.first), ZInt(1)), <<>>) = <<ZFrom(Ev.first)>>
                     /\ PrimesFrom(ZFrom(Ev.last), ZFrom(Ev.hi), <<>>) = <<ZFrom(Ev.last)>>
\* random primes: refused only when there is no prime; with very few primes among the candidates the search may miss them
RandEv == Is("rand") /\ LET lo == ZFrom(Ev.lo)  hi == ZFrom(Ev.hi)  r == ZFrom(Ev.r)
                            w == ZSub(hi, IF lo.s THEN ZInt(0) ELSE lo)
                            \* 4w trials (6400 at most) over (w + 1) / 2 candidates
                            few == ZLt(w, ZInt(700)) /\ Len(PrimesFrom(IF lo.s THEN ZInt(0) ELSE lo, hi, <<>>)) < 5
                        IN IF Ev.code = 0 THEN ZLt(lo, hi) /\ ZLe(lo, r) /\ ZLt(r, hi) /\ PrimeZ(r)
                           ELSE Ev.code = -1 /\ (~ZLt(lo, hi) \/ hi.s \/ few)
\* all primes of a small interval equally often
RECURSIVE SumSq(_, _, _)
SumSq(c, m, i) == IF i = 0 THEN 0 ELSE (c[i] - m) * (c[i] - m) + SumSq(c, m, i - 1)
RECURSIVE Sum(_, _)
Sum(c, i) == IF i = 0 THEN 0 ELSE c[i] + Sum(c, i - 1)
HistEv == Is("hist") /\ SmallPrimesAre(Ev.vals, Ev.lo, Ev.hi)
          /\ LET k == Len(Ev.counts)
                 m == Ev.n \div k
             IN k = Len(Ev.vals) /\ Sum(Ev.counts, k) = Ev.n /\ Ev.n % k = 0 /\ SumSq(Ev.counts, m, k) <= m * (k + 100)
Next == ApplyEv \/ MulEv \/ PowEv \/ InvEv \/ PrimeEv \/ BlockEv \/ ListEv \/ SListEv \/ SampleEv \/ EndsEv \/ RandEv \/ HistEv
TraceSpec == TInit /\ [][Next]_vars
============================================================================
