------------------------------ MODULE NumTheory ------------------------------
(* Exact arithmetic modulo m, inverses and primality for numbers of any      *)
(* size, as their definitions (integers are [s, m], see BigNat).             *)
EXTENDS BigNat

\* schoolbook division in base 1000: the quotient digit is estimated from the leading limbs and corrected
RECURSIVE Fix(_, _, _)
Fix(r, b, q) == IF Lt(r, b) THEN [q |-> q, r |-> r] ELSE Fix(Sub(r, b), b, q + 1)
Lead3(a, k) == At(a, k + 1) * 1000000 + At(a, k) * 1000 + (IF k > 1 THEN At(a, k - 1) ELSE 0)   \* limbs k+1, k, k-1
Digit(r, b) == LET k == Len(b)
                   e == IF k = 1 THEN Lead3(r, 1) \div (1000 * b[1] + 1000) ELSE Lead3(r, k) \div (1000 * b[k] + b[k - 1] + 1)
               IN IF e = 0 THEN Fix(r, b, 0) ELSE Fix(Sub(r, MulSmall(b, e)), b, e)
RECURSIVE QR(_, _, _, _, _)
QR(a, b, i, r, q) == IF i = 0 THEN [q |-> Trim(q), r |-> r]
                     ELSE LET d == Digit(Trim(<<a[i]>> \o r), b) IN QR(a, b, i - 1, d.r, [q EXCEPT ![i] = d.q])
QuoRem(a, b) == IF Lt(a, b) THEN [q |-> <<>>, r |-> a] ELSE QR(a, b, Len(a), <<>>, a)       \* b # 0
Mod(a, b) == IF Lt(a, b) THEN a ELSE IF Len(b) = 1 THEN Nat1(ModSmall(a, b[1])) ELSE QuoRem(a, b).r
\* representative of the integer x in 0..m-1
ModZ(x, m) == LET r == Mod(x.m, m) IN IF x.s /\ r # <<>> THEN Sub(m, r) ELSE r
MulM(a, b, m) == Mod(Mul(a, b), m)                                                           \* a, b < m
RECURSIVE PowLoop(_, _, _, _)
PowLoop(b, e, m, acc) == IF e = <<>> THEN acc
                         ELSE LET h == DivSmall(e, 2) IN
                              PowLoop(IF h.q = <<>> THEN b ELSE MulM(b, b, m), h.q, m, IF h.r = 1 THEN MulM(acc, b, m) ELSE acc)
PowM(b, e, m) == PowLoop(Mod(b, m), e, m, Mod(<<1>>, m))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = <<>> THEN a ELSE Gcd(b, Mod(a, b))
\* r is the inverse of x modulo m; the modulus 1 has the only residue 0
IsInverse(r, x, m) == Lt(r, m) /\ MulM(r, ModZ(x, m), m) = Mod(<<1>>, m)

\* primality: division by small primes, then the strong pseudoprime test for the first twelve primes, which
\* is exact below 318665857834031151167461 (Sorenson and Webster)
SmallPrimes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37>>
RECURSIVE Odd(_, _)
Odd(d, j) == IF IsEven(d) THEN Odd(DivSmall(d, 2).q, j + 1) ELSE [d |-> d, j |-> j]          \* n - 1 = d * 2^j
RECURSIVE Squares(_, _, _, _)
Squares(v, j, n, n1) == IF j = 0 THEN FALSE ELSE v = n1 \/ Squares(MulM(v, v, n), j - 1, n, n1)
Strong(a, n) == LET n1 == Sub(n, <<1>>)
                    o == Odd(n1, 0)
                    v == PowM(Nat1(a), o.d, n)
                IN v = <<1>> \/ Squares(v, o.j, n, n1)
RECURSIVE AllStrong(_, _, _)
AllStrong(n, i, k) == i > k \/ (Strong(SmallPrimes[i], n) /\ AllStrong(n, i + 1, k))
\* fewer bases are exact for smaller numbers (Pomerance, Selfridge, Wagstaff; Jaeschke; Jiang and Deng)
Bases(n) == IF Lt(n, <<751, 31, 215, 3>>) THEN 4 ELSE IF Lt(n, <<383, 660, 749, 474, 3>>) THEN 6
            ELSE IF Lt(n, <<321, 728, 71, 550, 341>>) THEN 7 ELSE IF Lt(n, <<51, 413, 546, 56, 123, 825, 3>>) THEN 9 ELSE 12
Trial == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149,
           151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293>>
RECURSIVE Sift(_, _)
Sift(n, i) == i > Len(Trial) \/ (ModSmall(n, Trial[i]) # 0 /\ Sift(n, i + 1))
Prime(n) == /\ Lt(<<1>>, n)
            /\ \/ Len(n) = 1 /\ \E i \in DOMAIN Trial : n[1] = Trial[i]
               \/ Sift(n, 1) /\ (Lt(n, Nat1(307 * 307)) \/ AllStrong(n, 1, Bases(n)))
PrimeZ(x) == ~x.s /\ Prime(x.m)
\* the same by the definition, for small numbers
Root(n) == IF n < 1024 THEN 32 ELSE IF n < 16384 THEN 128 ELSE IF n < 160000 THEN 400 ELSE 46341
SmallPrime(n) == n > 1 /\ IF n < 160000 THEN \A d \in 2..Root(n) : d * d > n \/ n % d # 0 ELSE Prime(Nat1(n))
\* the primes of an interval in increasing order; n is an integer, counted up k times
RECURSIVE PrimesFrom(_, _, _)
PrimesFrom(x, hi, acc) == IF ~ZLt(x, hi) THEN acc ELSE PrimesFrom(ZAdd(x, ZInt(1)), hi, IF PrimeZ(x) THEN Append(acc, x) ELSE acc)
Ascending(v) == \A i \in 2..Len(v) : v[i - 1] < v[i]
SmallPrimesAre(v, lo, hi) == Ascending(v) /\ {v[i] : i \in DOMAIN v} = {n \in lo..(hi - 1) : SmallPrime(n)}
==============================================================================
