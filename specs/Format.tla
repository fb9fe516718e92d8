------------------------------- MODULE Format -------------------------------
(* What an output stream writes for a value.  Values are trees:             *)
(*   [t |-> "int", d]   decimal text      [t |-> "bool", v]                 *)
(*   [t |-> "text", b]  characters, C strings, strings, string views        *)
(*   [t |-> "real", x]  exact binary number                                 *)
(*   [t |-> "seq", v]   any collection, pair, tuple or array                *)
(*   [t |-> "join", v, sep]   a join with separator sep (0: none)           *)
EXTENDS RealNum
VARIABLES text, prec        \* bytes written so far, decimals of reals
fmtvars == <<text, prec>>
DefaultPrec == 6
TRUETXT == <<116, 114, 117, 101>>
FALSETXT == <<102, 97, 108, 115, 101>>
INFTXT == <<105, 110, 102>>
NANTXT == <<110, 97, 110>>
\* m * 2^k rounded to the nearest integer, ties to even
Nearest(m, k) == IF k >= 0 THEN Mul(m, Pow2(k))
    ELSE LET q == Shr(m, -k)
             r2 == MulSmall(Sub(m, Mul(q, Pow2(-k))), 2)
             c == Cmp(r2, Pow2(-k))
         IN IF c > 0 \/ (c = 0 /\ ~IsEven(q)) THEN AddSmall(q, 1) ELSE q
Pad(d, n) == IF Len(d) < n THEN Rep(48, n - Len(d)) \o d ELSE d
FixedPoint(x, p) ==
    LET d == Pad(ToDigits(Nearest(Mul(M(x), Pow10(p)), x.k)), p + 1)
    IN (IF x.neg THEN <<45>> ELSE <<>>) \o SubSeq(d, 1, Len(d) - p) \o (IF p > 0 THEN <<46>> \o SubSeq(d, Len(d) - p + 1, Len(d)) ELSE <<>>)
RealText(x, p) == IF x.c = "fin" THEN FixedPoint(x, p)
                  ELSE (IF x.neg THEN <<45>> ELSE <<>>) \o (IF x.c = "inf" THEN INFTXT ELSE NANTXT)
RECURSIVE Fmt(_, _), Glue(_, _, _, _)
\* elements i.. of v with the separator between neighbours
Glue(v, i, sep, p) == IF i > Len(v) THEN <<>>
    ELSE (IF i > 1 THEN sep ELSE <<>>) \o Fmt(v[i], p) \o Glue(v, i + 1, sep, p)
Fmt(t, p) == CASE t.t = "int" -> t.d
               [] t.t = "bool" -> (IF t.v THEN TRUETXT ELSE FALSETXT)
               [] t.t = "text" -> t.b
               [] t.t = "real" -> RealText(t.x, p)
               [] t.t = "seq" -> Glue(t.v, 1, <<32>>, p)
               [] t.t = "join" -> Glue(t.v, 1, IF t.sep = 0 THEN <<>> ELSE <<t.sep>>, p)
Open == text' = <<>> /\ prec' = DefaultPrec
Put(t) == text' = text \o Fmt(t, prec) /\ UNCHANGED prec
SetPrec(p) == prec' = p /\ UNCHANGED text
AsString(t) == Fmt(t, DefaultPrec)
============================================================================
