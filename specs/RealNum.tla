----------------------------- MODULE RealNum -----------------------------
(* Floating point numbers as exact binary fractions.                       *)
EXTENDS Tokens
(* Reals.  A recorded number is [c, neg, m, k]: class ("fin", "inf", "nan"), sign and   *)
(* the exact magnitude m * 2^k.                                             *)
M(x) == FromDigits(x.m)
\* exact comparison of m1 * 2^k1 with m2 * 2^k2 (magnitudes)
ScaleTo(m, k, base) == Mul(m, Pow2(k - base))
Min2(a, b) == IF a < b THEN a ELSE b
\* exact signed integer of x in units of 2^base
Units(x, base) == Z(x.neg, IF M(x) = <<>> THEN <<>> ELSE ScaleTo(M(x), x.k, base))
K(x) == IF x.c # "fin" \/ x.m = <<48>> THEN 1000 ELSE x.k
\* magnitudes of finite numbers: far apart by their sizes, otherwise in units of the smaller exponent
ZeroR(x) == x.m = <<48>>
Hi2(x) == x.k + 4 * Len(x.m)           \* |x| < 2^Hi2(x)
Lo2(x) == x.k + 3 * (Len(x.m) - 1)     \* |x| >= 2^Lo2(x)
MagLt(x, y) == IF ZeroR(x) THEN ~ZeroR(y) ELSE IF ZeroR(y) THEN FALSE
               ELSE IF Hi2(x) <= Lo2(y) THEN TRUE ELSE IF Hi2(y) <= Lo2(x) THEN FALSE
               ELSE LET b == Min2(x.k, y.k) IN ~Le(ScaleTo(M(y), y.k, b), ScaleTo(M(x), x.k, b))
RLt(x, y) == LET xn == x.neg /\ ~ZeroR(x)  yn == y.neg /\ ~ZeroR(y)
             IN IF x.c = "fin" /\ y.c = "fin" THEN (IF xn # yn THEN xn ELSE IF xn THEN MagLt(y, x) ELSE MagLt(x, y))
                ELSE IF x.c = "nan" \/ y.c = "nan" THEN FALSE
                ELSE IF x.c = "inf" /\ y.c = "inf" THEN x.neg /\ ~y.neg
                ELSE IF x.c = "inf" THEN x.neg ELSE ~y.neg
\* is x (finite) the decimal value of t rounded to `bits` significant bits (half a unit plus nothing)?
Rounded(x, t, bits) ==
    LET d == Dec(t)
        a == Mul(M(x), IF d.e < 0 THEN Pow10(-d.e) ELSE <<1>>)
        b == Mul(d.m, IF d.e > 0 THEN Pow10(d.e) ELSE <<1>>)
        p == IF x.k > 0 THEN Mul(a, Pow2(x.k)) ELSE a
        q == IF x.k < 0 /\ M(x) # <<>> THEN Mul(b, Pow2(-x.k)) ELSE b
    IN /\ x.c = "fin"
       /\ (d.m = <<>>) <=> (M(x) = <<>>)
       /\ (M(x) # <<>> => x.neg = d.neg)
       /\ Le(Mul(Diff(p, q), Pow2(bits)), q)
\* decimal exponent of the leading digit
Lead(d) == LET n == Len(d.m) IN d.e + 3 * n - (IF d.m[n] >= 100 THEN 1 ELSE IF d.m[n] >= 10 THEN 2 ELSE 3)
\* tokens of moderate size are checked exactly; huge or tiny ones only for being (un)representable
Moderate(t) == LET d == Dec(t) IN d.m = <<>> \/ (Lead(d) \in -60..60 /\ d.e > -700)
TooBig(t) == LET d == Dec(t) IN d.m # <<>> /\ Lead(d) > 4932
Normal(t) == LET d == Dec(t) IN d.m = <<>> \/ Lead(d) \in -4900..4900

\* outcome of taking the token as a number without bounds: "yes", "no", "any"
Parse(t, ok(_)) == IF ~ok(t) THEN "no" ELSE IF TooBig(t) THEN "no" ELSE IF Normal(t) THEN "yes" ELSE "any"
Fits(verdict, ok) == verdict = "any" \/ ok = (verdict = "yes")
SameNum(x, y) == x.c = y.c /\ (x.c = "fin" => ~RLt(x, y) /\ ~RLt(y, x))
(* tolerance: a given number is equal to an expected one if the absolute or *)
(* the relative difference is within the tolerance.  The comparison is done *)
(* in floating point, so within a relative band of 2^-40 around the limit   *)
(* either answer is right.                                                  *)
Tol(g, x, a, r) ==
    IF g.c # "fin" \/ x.c # "fin" THEN
        IF (g.c = "nan" /\ x.c = "nan") \/ (g.c = "inf" /\ x.c = "inf" /\ g.neg = x.neg) THEN "yes" ELSE "no"
    ELSE LET b == Min2(Min2(K(g), K(x)), Min2(Min2(K(a), K(r)), 0))
             d == ZAbs(ZSub(Units(g, b), Units(x, b))).m       \* units 2^b
             ta == Units(a, b).m
             d2 == Mul(d, Pow2(-b))                              \* units 2^2b
             tr == Mul(Units(r, b).m, Units(x, b).m)
             S == P2Tab[41]
             \* clearly within: d*(1+2^-40) <= t;  clearly beyond: d > t*(1+2^-40)
             In(u, t)  == IF u = <<>> THEN TRUE ELSE Le(Mul(u, AddSmall(S, 1)), Mul(t, S))
             Out(u, t) == Lt(Mul(t, AddSmall(S, 1)), Mul(u, S))
             zero == M(x) = <<>>                                  \* relative difference undefined or infinite
         IN IF In(d, ta) \/ (~zero /\ In(d2, tr)) THEN "yes"
            ELSE IF Out(d, ta) /\ (zero \/ Out(d2, tr)) THEN "no" ELSE "any"
=========================================================================
