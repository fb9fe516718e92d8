------------------------------- MODULE UtilTrace -------------------------------
EXTENDS Util, TraceKit, SequencesExt
vars == <<l>>
TInit == TKInit
\* all 256 characters: six classes, lower, upper and default case
CharEv == Is("chars") /\ Len(Ev.lower) = 256 /\ \A c \in 0..255 :
            /\ \A k \in 1..6 : Ev.class[k][c + 1] = (IF Class(k, c) THEN 1 ELSE 0)
            /\ Ev.lower[c + 1] = ToLower(c) /\ Ev.upper[c + 1] = ToUpper(c) /\ Ev.dflt[c + 1] = ToLower(c)
StrEv == Is("str") /\ LET s == Ev.s IN
            /\ \A k \in 1..6 : LET bad == {i \in DOMAIN s : ~Class(k, s[i])} IN
                  /\ Ev.b[k] = (bad = {}) /\ (bad # {} => \E i \in bad : Ev.r[k] = s[i]) /\ (bad = {} => Ev.r[k] = -1)
            /\ Ev.lower = [i \in DOMAIN s |-> ToLower(s[i])] /\ Ev.upper = [i \in DOMAIN s |-> ToUpper(s[i])] /\ Ev.dflt = [i \in DOMAIN s |-> ToLower(s[i])]
Zs(v) == [i \in DOMAIN v |-> ZFrom(v[i])]
RangeEv == Is("range") /\ LET step == ZFrom(Ev.step) IN
            IF step = ZInt(0) THEN Ev.code = -1 ELSE Ev.code = 0 /\ IsRange(Zs(Ev.v), ZFrom(Ev.from), ZFrom(Ev.to), step)
MorseEv == Is("morse") /\ LET lo == ZFrom(Ev.lo)  hi == ZFrom(Ev.hi) IN
            IF lo.s \/ ~ZLt(lo, hi) THEN Ev.code = -1
            ELSE Ev.code = 0 /\ ZInt(Len(Ev.v)) = ZSub(hi, lo) /\ \A i \in DOMAIN Ev.v : Ev.v[i] = Ones(ZAdd(lo, ZInt(i - 1)).m)
AppendEv == Is("append") /\ Ev.after = (IF Ev.self THEN Ev.before \o Ev.before ELSE IF Ev.sorted THEN SortSeq(Ev.before \o Ev.other, LAMBDA a, b : a < b) ELSE Ev.before \o Ev.other) /\ Ev.kept
FlatEv == Is("flat") /\ Ev.res = Flat(Ev.v, Ev.d) /\ Ev.kept
ContainsEv == Is("contains") /\ \A i \in DOMAIN Ev.keys : Ev.res[i] = (\E j \in DOMAIN Ev.v : Ev.v[j] = Ev.keys[i])
SignEv == Is("sign") /\ LET x == ZFrom(Ev.x) IN Ev.r = (IF x.s THEN -1 ELSE IF x.m = <<>> THEN 0 ELSE 1)
DistEv == Is("dist") /\ ZFrom(Ev.r) = ZAbs(ZSub(ZFrom(Ev.a), ZFrom(Ev.b)))
\* a container as a function of its index or key; sizes compared
FuncEv == Is("func") /\ \A i \in DOMAIN Ev.v : Ev.res[i] = Ev.v[i]
ShortEv == Is("short") /\ Ev.s = (Ev.n < Ev.m) /\ Ev.l = (Ev.m < Ev.n)
\* priority queues: pushes (and pops, -1000) and the values popped; kind 1: smallest first
RECURSIVE Queue(_, _, _, _)
Best(b, k) == CHOOSE i \in DOMAIN b : \A j \in DOMAIN b : IF k = 1 THEN b[i] <= b[j] ELSE b[i] >= b[j]
Queue(ops, i, b, k) == IF i > Len(ops) THEN <<>>
                       ELSE IF ops[i] # -1000 THEN Queue(ops, i + 1, Append(b, ops[i]), k)
                       ELSE LET j == Best(b, k) IN <<b[j]>> \o Queue(ops, i + 1, SubSeq(b, 1, j - 1) \o SubSeq(b, j + 1, Len(b)), k)
QueueEv == Is("queue") /\ Ev.res = Queue(Ev.ops, 1, <<>>, Ev.kind)
\* an alphabet lists every character of its class once, in increasing order (brackets: each opening one directly before its closing one)
ConstEv == Is("const") /\ LET s == Ev.s  k == Ev.k IN
              CASE k = 15 -> s = <<10, 32, 0>>
                [] k = 16 -> s = <<51, 49, 52, 49, 53, 57, 50, 54, 53, 51, 53, 56, 57, 55, 57, 51>>
                [] OTHER -> /\ Len(s) = Cardinality(Alphabet(k)) /\ ToSet(s) = Alphabet(k)
                            /\ (k < 14 => \A i \in 1..(Len(s) - 1) : (k = 4 \/ k = 7 \/ k = 1 \/ s[i] < s[i + 1]) /\ (IsUpper(s[i]) = IsUpper(s[i + 1]) => s[i] < s[i + 1]))
                            /\ (k = 14 => \A i \in {1, 3, 5, 7} : s[i + 1] \in {s[i] + 1, s[i] + 2})
\* coordinates: what is read, and what one write changes (that coordinate and nothing else)
XyzEv == Is("xyz") /\ LET d == Len(Ev.p) IN Ev.got = Ev.p /\ Ev.cgot = Ev.p /\ Len(Ev.after) = d * d
            /\ \A i \in 1..d : \A j \in 1..d : Ev.after[(i - 1) * d + j] = (IF j <= i THEN Ev.w[j] ELSE Ev.p[j])
ConvEv == Is("conv") /\ Ev.q = Ev.p \o Ev.p
ProdEv == Is("prod") /\ LET a == Ev.a  b == Ev.b  o == Ev.o  Rel(u) == <<u[1] - o[1], u[2] - o[2]>> IN
             Ev.r = <<Dot(a, b), Cross(a, b), Cross(Rel(a), Rel(b))>> /\ Ev.kept
Next == ConstEv \/ XyzEv \/ ConvEv \/ ProdEv \/ CharEv \/ StrEv \/ RangeEv \/ MorseEv \/ AppendEv \/ FlatEv \/ ContainsEv \/ SignEv \/ DistEv \/ FuncEv \/ ShortEv \/ QueueEv
TraceSpec == TInit /\ [][Next]_vars
===============================================================================
