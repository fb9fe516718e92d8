---------------------------- MODULE Distribution ----------------------------
(* Random variates that are not uniform: which requests are legal, where    *)
(* the result lies, and how the results are distributed.  Probabilities are *)
(* exact weights, or parts per million of bins.                             *)
EXTENDS RealNum
Zero == [c |-> "fin", neg |-> FALSE, m |-> <<48>>, k |-> 0]
One == [c |-> "fin", neg |-> FALSE, m |-> <<49>>, k |-> 0]
Fin(x) == x.c = "fin"
RLe(x, y) == x.c # "nan" /\ y.c # "nan" /\ ~RLt(y, x)
Half(x, lo, hi) == RLe(lo, x) /\ RLt(x, hi)
\* a: real parameters, z: integer parameters
RealLegal(f, a) ==
    CASE f = "normal2" -> RLe(Zero, a[2])
      [] f = "normal4" -> RLt(a[1], a[2]) /\ RLe(Zero, a[4])
      [] f = "exp1" -> RLt(Zero, a[1])
      [] f = "exp3" -> Fin(a[1]) /\ RLt(a[1], a[2]) /\ RLt(Zero, a[3])
RealValid(f, a, x) ==
    CASE f = "normal2" -> Fin(x)
      [] f = "normal4" -> Half(x, a[1], a[2])
      [] f = "exp1" -> Fin(x) /\ RLe(Zero, x)
      [] f = "exp3" -> Half(x, a[1], a[2])
\* z = <<lower, upper, n>> as far as they exist; p the probability
IntLegal(f, z, p) ==
    CASE f = "geo1" -> RLt(Zero, p) /\ RLt(p, One)
      [] f = "geo3" -> ZLt(z[1], z[2]) /\ RLt(Zero, p) /\ RLt(p, One)
      [] f = "bin2" -> ~z[3].s /\ RLe(Zero, p) /\ RLe(p, One)
      [] f = "bin4" -> ZLt(z[1], z[2]) /\ ~z[3].s /\ RLe(Zero, p) /\ RLe(p, One)
      [] f \in {"max", "min"} -> ZLt(z[1], z[2]) /\ ZLt(ZInt(0), z[3])
      [] f = "minmax" -> ZLt(z[1], z[2]) /\ z[3] # ZInt(0)
IntValid(f, z, p, x) ==
    CASE f = "geo1" -> ~x.s
      [] f = "bin2" -> ~x.s /\ ZLe(x, z[3])
      [] OTHER -> ZLe(z[1], x) /\ ZLt(x, z[2])
----------------------------------------------------------------------------
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* exact weight of the value v (from 0) in a range of size s
Extreme(f, v, s, n) == IF f = "max" THEN Pow(v + 1, n) - Pow(v, n) ELSE Pow(s - v, n) - Pow(s - v - 1, n)
----------------------------------------------------------------------------
RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 1000 * ToInt(Tail(a))
RECURSIVE BigPow(_, _)
BigPow(b, n) == IF n = 0 THEN <<1>> ELSE MulSmall(BigPow(b, n - 1), b)
RECURSIVE Row(_, _, _)
Row(r, k, acc) == IF k > Len(r) + 1 THEN acc ELSE Row(r, k + 1, Append(acc, Add(IF k = 1 THEN <<>> ELSE r[k - 1], IF k = Len(r) + 1 THEN <<>> ELSE r[k])))
RECURSIVE PascalFrom(_, _)
PascalFrom(r, n) == IF n = 0 THEN r ELSE PascalFrom(Row(r, 1, <<>>), n - 1)
Pascal(n) == PascalFrom(<<<<1>>>>, n)
Ppm(w, e) == ToInt(Shr(MulSmall(w, 1000000), e))                              \* w / 2^e in parts per million
\* success probability a/4
Binom(n, a) == LET row == Pascal(n) IN [k \in 1..(n + 1) |-> Ppm(Mul(row[k], Mul(BigPow(a, k - 1), BigPow(4 - a, n - k + 1))), 2 * n)]
\* b values, the last bin holds everything from b-1 on
Geom(a, b) == [k \in 1..b |-> IF k < b THEN Ppm(MulSmall(BigPow(4 - a, k - 1), a), 2 * k) ELSE Ppm(BigPow(4 - a, b - 1), 2 * (b - 1))]
\* largest and smallest of n values in eight bins
Largest(n) == [i \in 1..8 |-> Ppm(Sub(BigPow(i, n), BigPow(i - 1, n)), 3 * n)]
Smallest(n) == [i \in 1..8 |-> Largest(n)[9 - i]]
\* standard normal in half units, below -3 .. above 3; exponential in half units, last bin from 4.5 on
NormalBins == <<1350, 4860, 16540, 44057, 91848, 149883, 191462, 191462, 149883, 91848, 44057, 16540, 4860, 1350>>
ExpBins == <<393469, 238651, 144749, 87795, 53250, 32298, 19590, 11882, 7207, 11109>>
Bins(f, p) == CASE f = "binomial" -> Binom(p[1], p[2])
                [] f = "geometric" -> Geom(p[1], p[2])
                [] f = "max" -> Largest(p[1])
                [] f = "min" -> Smallest(p[1])
                [] f = "normal" -> NormalBins
                [] f = "exponential" -> ExpBins
RECURSIVE Sum(_)
Sum(c) == IF c = <<>> THEN 0 ELSE c[1] + Sum(Tail(c))
\* restricted to the bins from..to; n samples with the given counts.  The bound is far beyond chance.
RECURSIVE Chi(_, _, _)
Chi(c, e, i) == IF i = 0 THEN 0 ELSE LET d == c[i] - e[i] IN Chi(c, e, i - 1) + (IF d > 30000 \/ d < -30000 THEN 1000000 ELSE (d * d) \div (e[i] + 1))
Agrees(f, p, from, to, n, counts) ==
    LET b == SubSeq(Bins(f, p), from, to)
        t == Sum(b) \div 1000
        e == [i \in DOMAIN b |-> ((n \div 1000) * b[i]) \div t]
    IN Len(counts) = Len(b) /\ Sum(counts) = n /\ Chi(counts, e, Len(b)) <= 2 * Len(b) + 150
============================================================================
