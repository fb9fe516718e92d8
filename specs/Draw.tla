-------------------------------- MODULE Draw --------------------------------
(* Drawing numbers from an engine of uniformly distributed words.           *)
(* A draw below s looks at words until one is accepted: word x stands for   *)
(* the value x * s div 2^64, and is skipped if the low half of the product  *)
(* is below 2^64 mod s.  DrawMC shows that this makes every value equally   *)
(* likely; it is the definition of what the real generator has to return.   *)
(*   words   engine output not yet consumed (decimal texts)                 *)
EXTENDS RealNum
VARIABLE words
TwoTo64 == P2Tab[65]
RECURSIVE Doubled(_, _, _)
Doubled(r, s, n) == IF n = 0 THEN r ELSE LET d == MulSmall(r, 2) IN Doubled(IF Le(s, d) THEN Sub(d, s) ELSE d, s, n - 1)
ModPow64(s) == IF s = <<1>> THEN <<>> ELSE Doubled(<<1>>, s, 64)      \* 2^64 mod s
High(x, s) == Shr(Mul(x, s), 64)
Low(x, s) == LET p == Mul(x, s) IN Sub(p, Mul(Shr(p, 64), TwoTo64))
Accept(x, s) == LET w == Low(x, s) IN ~Lt(w, s) \/ ~Lt(w, ModPow64(s))
\* outcome of a draw from the words w: [v, n] value and number of words used; n = 0: the words do not suffice
RECURSIVE Below(_, _, _)
Below(w, s, n) == IF n > Len(w) THEN [v |-> <<>>, n |-> 0]
                  ELSE LET x == FromDigits(w[n]) IN IF Accept(x, s) THEN [v |-> High(x, s), n |-> n] ELSE Below(w, s, n + 1)
Span(lo, hi) == ZSub(hi, lo).m
Between(w, lo, hi) == LET r == Below(w, Span(lo, hi), 1) IN [v |-> ZAdd(lo, ZNat(r.v)), n |-> r.n]
Signed(x) == IF Lt(x, P2Tab[64]) THEN ZNat(x) ELSE ZSub(ZNat(x), ZNat(TwoTo64))
Drop(w, n) == SubSeq(w, n + 1, Len(w))
============================================================================
