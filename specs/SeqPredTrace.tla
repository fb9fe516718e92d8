----------------------------- MODULE SeqPredTrace -----------------------------
EXTENDS TraceKit, BigNat
vars == <<l>>
TInit == TKInit
LtI(a, b) == a < b
S == INSTANCE SeqPred WITH LtV <- LtI
Z1 == INSTANCE SeqPred WITH LtV <- ZLt
\* an answer of a function: value and, if there is one, a reason
OK(a, want, has(_)) == a.b = want /\ (a.r # <<>> => has(a.r[1]))
No(x) == FALSE
\* all or none adjacent: false with the length of the longest good prefix
AllAdj(a, s, bad(_, _)) == IF S!AnyAdj(s, bad) THEN ~a.b /\ a.r = <<S!First(s, bad)>> ELSE a.b /\ a.r = <<>>
Pred(k, x, y) == CASE k = 0 -> x < y [] k = 1 -> x = y [] k = 2 -> (x - y) \in {-1, 0, 1} [] k = 3 -> (x + y) % 2 = 0 [] k = 4 -> x = y + 1 [] k = 5 -> TRUE [] OTHER -> FALSE
SeqEv == /\ Is("seq")
         /\ LET s == Ev.v IN
            /\ AllAdj(Ev.inc, s, S!NonInc) /\ AllAdj(Ev.nondec, s, S!Dec) /\ AllAdj(Ev.dec, s, S!NonDec) /\ AllAdj(Ev.noninc, s, S!Inc)
            /\ OK(Ev.distinct, S!Distinct(s), LAMBDA x : S!Repeated(s, x)) /\ (~S!Distinct(s) => Len(Ev.distinct.r) = 1)
            /\ \A k \in DOMAIN Ev.any :
                  LET P(x, y) == Pred(k - 1, x, y)
                      NotP(x, y) == ~Pred(k - 1, x, y)
                  IN /\ Ev.any[k].b = S!AnyAdj(s, P) /\ (Ev.any[k].r # <<>> => (Ev.any[k].b /\ Ev.any[k].r[1] = S!First(s, P)))
                     /\ AllAdj(Ev.none[k], s, P) /\ AllAdj(Ev.all[k], s, NotP)
            /\ \A k \in DOMAIN Ev.perm :                                       \* offsets -1, 0, 1, 2
                  LET o == k - 2
                      want == S!PermOf(s, [i \in 1..Len(s) |-> o + i - 1])
                  IN OK(Ev.perm[k], want, LAMBDA x : (\E i \in DOMAIN s : s[i] = x) /\ (x < o \/ x >= o + Len(s) \/ S!Repeated(s, x)))
                     /\ (~want => Len(Ev.perm[k].r) = 1) /\ (want => Ev.perm[k].r = <<>>)
\* two sequences
PairEv == /\ Is("pair") /\ \A i \in DOMAIN Ev.res :
             LET want == S!PermOf(Ev.v, Ev.w[i])
             IN OK(Ev.res[i], want, LAMBDA x : \E j \in DOMAIN Ev.v : Ev.v[j] = x) /\ (want => Ev.res[i].r = <<>>)
                /\ ((~want /\ Len(Ev.v) = Len(Ev.w[i])) => Len(Ev.res[i].r) = 1)
\* values of any size (as texts), the same for all integer types which can hold them
BigEv == /\ Is("big")
         /\ LET s == [i \in DOMAIN Ev.v |-> ZFrom(Ev.v[i])]
                o == ZFrom(Ev.off)
                wantP == Z1!PermOf(s, [i \in 1..Len(s) |-> ZAdd(o, ZInt(i - 1))])
                adj(a, bad(_, _)) == IF Z1!AnyAdj(s, bad) THEN ~a.b /\ a.r = <<Z1!First(s, bad)>> ELSE a.b
            IN /\ Ev.perm.b = wantP
               /\ (~wantP => LET x == ZFrom(Ev.perm.w) IN (\E i \in DOMAIN s : s[i] = x) /\ (ZLt(x, o) \/ ~ZLt(x, ZAdd(o, ZInt(Len(s)))) \/ Z1!Repeated(s, x)))
               /\ Ev.distinct.b = Z1!Distinct(s) /\ (~Ev.distinct.b => Z1!Repeated(s, ZFrom(Ev.distinct.w)))
               /\ adj(Ev.inc, Z1!NonInc) /\ adj(Ev.nondec, Z1!Dec) /\ adj(Ev.dec, Z1!NonDec) /\ adj(Ev.noninc, Z1!Inc)
Next == SeqEv \/ PairEv \/ BigEv
TraceSpec == TInit /\ [][Next]_vars
===============================================================================
