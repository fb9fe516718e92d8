------------------------------ MODULE ConLog ------------------------------
(* The constraint log: what one name accumulates, and the file lines.       *)
(* Numbers are integers of BigNat; reals are kept in thousandths.           *)
EXTENDS RealNum
Lim(ty, x)  == IF ty = "real" THEN x ELSE ZSub(x, ZInt(1))      \* the log has closed ranges for integers
ZMin(x, y) == IF ZLt(x, y) THEN x ELSE y
ZMax(x, y) == IF ZLt(x, y) THEN y ELSE x
None == [ty |-> "none"]
TypeOk(c, ty) == c.ty \in {"none", ty}
Logged(c, ty, lo, hi0, v) ==
    LET hi == Lim(ty, hi0) IN
    IF c.ty = "none" THEN [ty |-> ty, a |-> v = lo, b |-> v = hi, min |-> v, max |-> v, lo |-> lo, hi |-> hi]
    ELSE [c EXCEPT !.a = @ \/ v = lo, !.b = @ \/ v = hi, !.min = ZMin(@, v), !.max = ZMax(@, v),
                   !.lo = ZMin(@, lo), !.hi = ZMax(@, hi)]
Thousandths(t) == LET d == Dec(t) IN Z(d.neg, Mul(d.m, Pow10(d.e + 3)))   \* at most three decimals
Fixed(z) == LET d == ToDigits(z.m)
                p == IF Len(d) < 4 THEN Rep(48, 4 - Len(d)) \o d ELSE d
            IN (IF z.s THEN <<45>> ELSE <<>>) \o SubSeq(p, 1, Len(p) - 3) \o <<46>> \o SubSeq(p, Len(p) - 2, Len(p)) \o <<48, 48, 48>>
NumText(c, z) == IF c.ty = "real" THEN Fixed(z) ELSE ZText(z)
Flag(b) == IF b THEN <<49>> ELSE <<48>>
LineOK(c, n, ln) == Len(ln.t) = 8 /\ ln.name = n /\ SubSeq(ln.t, 3, 8) =
    <<Flag(c.a), Flag(c.b), NumText(c, c.min), NumText(c, c.max), NumText(c, c.lo), NumText(c, c.hi)>>
=========================================================================
