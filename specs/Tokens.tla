------------------------------ MODULE Tokens ------------------------------
(* Grammar and meaning of numeric tokens (sequences of bytes).             *)
EXTENDS BigNat
Digit(c) == c \in 48..57
AllDigits(t) == \A i \in DOMAIN t : Digit(t[i])
MINUS == 45
PLUS == 43
DOT == 46
NoSign(t)  == IF t # <<>> /\ t[1] \in {MINUS, PLUS} THEN Tail(t) ELSE t
NoMinus(t) == IF t # <<>> /\ t[1] = MINUS THEN Tail(t) ELSE t

\* canonical integers: no plus sign, no superfluous zeros, no minus zero
CanonInt(t) == LET m == NoMinus(t) IN
    /\ m # <<>> /\ AllDigits(m)
    /\ m[1] = 48 => (Len(m) = 1 /\ Len(t) = 1)
MaxI == Sub(P2Tab[64], <<1>>)
MinI == P2Tab[64]               \* magnitude of the smallest 64 bit integer
Fits64(z) == IF z.s THEN Le(z.m, MinI) ELSE Le(z.m, MaxI)
IntToken(t) == CanonInt(t) /\ Fits64(ZFrom(t))
InRange(z, lo, hi) == ZLe(lo, z) /\ ZLt(z, hi)

\* real tokens.  position of the first byte in S, or Len+1
RECURSIVE FindFrom(_, _, _)
FindFrom(t, S, i) == IF i > Len(t) \/ t[i] \in S THEN i ELSE FindFrom(t, S, i + 1)
Split(t) == LET e == FindFrom(t, {69, 101}, 1)
                mant == SubSeq(t, 1, e - 1)
                p == FindFrom(mant, {DOT}, 1)
            IN [neg |-> t # <<>> /\ t[1] = MINUS,
                int |-> NoSign(SubSeq(mant, 1, p - 1)),
                dot |-> p <= Len(mant), frac |-> SubSeq(mant, p + 1, Len(mant)),
                hasExp |-> e <= Len(t), exp |-> SubSeq(t, e + 1, Len(t))]
RealToken(t) == LET s == Split(t) IN
    /\ AllDigits(s.int) /\ AllDigits(s.frac) /\ s.int \o s.frac # <<>>
    /\ ~s.dot => s.frac = <<>>
    /\ s.hasExp => (NoSign(s.exp) # <<>> /\ AllDigits(NoSign(s.exp)))
StrictReal(t) == LET s == Split(t) IN
    /\ RealToken(t) /\ ~s.hasExp /\ t[1] # PLUS
    /\ s.int # <<>> /\ (s.int[1] = 48 => Len(s.int) = 1)
Decimals(t) == Len(Split(t).frac)

\* the value is (-1)^neg * m * 10^e ; exponents are clipped to +-99999
SmallNum(d) == LET x == FromDigits(d) IN IF Len(x) > 1 /\ Le(Nat1(99999), x) THEN 99999
               ELSE At(x, 1) + 1000 * At(x, 2)
Dec(t) == LET s == Split(t)
              e0 == IF ~s.hasExp THEN 0 ELSE IF s.exp[1] = MINUS THEN -SmallNum(NoSign(s.exp)) ELSE SmallNum(NoSign(s.exp))
          IN [neg |-> s.neg, m |-> FromDigits(s.int \o s.frac), e |-> e0 - Len(s.frac), e0 |-> e0]
===========================================================================
