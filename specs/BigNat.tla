----------------------------- MODULE BigNat -----------------------------
(* Natural and integer numbers of any size.  A natural number is a        *)
(* sequence of limbs in base 1000, least significant first, without       *)
(* leading zero limbs (zero is <<>>); an integer is [s, m] with s the     *)
(* sign (TRUE: negative) and m the magnitude (zero has s = FALSE).        *)
EXTENDS Integers, Sequences

BASE == 1000
Nat1(n) == IF n = 0 THEN <<>> ELSE IF n < 1000 THEN <<n>>
           ELSE IF n < 1000000 THEN <<n % 1000, n \div 1000>>
           ELSE IF n < 1000000000 THEN <<n % 1000, (n \div 1000) % 1000, n \div 1000000>>
           ELSE <<n % 1000, (n \div 1000) % 1000, (n \div 1000000) % 1000, n \div 1000000000>>
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

\* decimal digits (bytes 48..57, most significant first) to a number
FromDigits(d) ==
    LET n == Len(d)
        D(i) == IF i >= 1 THEN d[i] - 48 ELSE 0
        k == (n + 2) \div 3
    IN Trim([j \in 1..k |-> LET e == n - 3 * (j - 1) IN D(e) + 10 * D(e - 1) + 100 * D(e - 2)])

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
\* -1, 0 or 1
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0

At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, c, acc) ==
    IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET s == At(a, i) + At(b, i) + c
         IN AddFrom(a, b, i + 1, s \div BASE, Append(acc, s % BASE))
Add(a, b) == AddFrom(a, b, 1, 0, <<>>)
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, c, acc) ==
    IF i > Len(a) THEN acc
    ELSE LET s == a[i] - At(b, i) - c
         IN IF s < 0 THEN SubFrom(a, b, i + 1, 1, Append(acc, s + BASE))
            ELSE SubFrom(a, b, i + 1, 0, Append(acc, s))
Sub(a, b) == Trim(SubFrom(a, b, 1, 0, <<>>))     \* a >= b
Diff(a, b) == IF Lt(a, b) THEN Sub(b, a) ELSE Sub(a, b)

RECURSIVE Conv(_, _, _, _, _)
Conv(a, b, k, i, s) == \* sum over i of a[i] * b[k+1-i]
    IF i > Len(a) \/ i > k THEN s
    ELSE Conv(a, b, k, i + 1, s + a[i] * b[k + 1 - i])
RECURSIVE Carry(_, _, _, _)
Carry(c, i, r, acc) ==
    IF i > Len(c) THEN IF r = 0 THEN acc ELSE Carry(c, i, r \div BASE, Append(acc, r % BASE))
    ELSE LET s == c[i] + r IN Carry(c, i + 1, s \div BASE, Append(acc, s % BASE))
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE LET n == Len(a) + Len(b) - 1
                      lo(k) == IF k > Len(b) THEN k + 1 - Len(b) ELSE 1
                  IN Trim(Carry([k \in 1..n |-> Conv(a, b, k, lo(k), 0)], 1, 0, <<>>))
MulSmall(a, k) == Trim(Carry([i \in 1..Len(a) |-> a[i] * k], 1, 0, <<>>))   \* k < 2^20
AddSmall(a, k) == Add(a, Nat1(k))

RECURSIVE DivAt(_, _, _, _, _)
DivAt(a, k, i, r, q) == \* schoolbook division by a small number, from the top
    IF i = 0 THEN [q |-> Trim(q), r |-> r]
    ELSE LET x == r * BASE + a[i] IN DivAt(a, k, i - 1, x % k, [q EXCEPT ![i] = x \div k])
DivSmall(a, k) == DivAt(a, k, Len(a), 0, a)      \* k < 2^20
ModSmall(a, k) == DivSmall(a, k).r
RECURSIVE Shr(_, _)                              \* a div 2^k
Shr(a, k) == IF k = 0 THEN a ELSE IF k <= 19 THEN DivSmall(a, 2 ^ k).q ELSE Shr(DivSmall(a, 2 ^ 19).q, k - 19)
IsEven(a) == a = <<>> \/ a[1] % 2 = 0

\* decimal digits (bytes) of a number, of an integer
Three(x) == <<48 + (x \div 100), 48 + ((x \div 10) % 10), 48 + (x % 10)>>
RECURSIVE DigitsFrom(_, _)
DigitsFrom(a, i) == IF i = 0 THEN <<>> ELSE Three(a[i]) \o DigitsFrom(a, i - 1)
RECURSIVE DropZeros(_)
DropZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN DropZeros(Tail(d)) ELSE d
ToDigits(a) == IF a = <<>> THEN <<48>> ELSE DropZeros(DigitsFrom(a, Len(a)))
Rep(x, n) == [i \in 1..n |-> x]
Pow10(e) == Append(Rep(0, e \div 3), IF e % 3 = 0 THEN 1 ELSE IF e % 3 = 1 THEN 10 ELSE 100)
RECURSIVE P2(_, _)
P2(s, k) == IF k = 0 THEN s ELSE P2(Append(s, MulSmall(s[Len(s)], 2)), k - 1)
P2Tab == P2(<<<<1>>>>, 300)
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 300 THEN P2Tab[k + 1] ELSE Mul(P2Tab[301], Pow2(k - 300))

----------------------------------------------------------------------------
Z(s, m) == [s |-> s /\ m # <<>>, m |-> m]
ZNat(m) == [s |-> FALSE, m |-> m]
ZNeg(x) == Z(~x.s, x.m)
ZAdd(x, y) == IF x.s = y.s THEN Z(x.s, Add(x.m, y.m))
              ELSE IF Lt(x.m, y.m) THEN Z(y.s, Sub(y.m, x.m)) ELSE Z(x.s, Sub(x.m, y.m))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == Z(x.s # y.s, Mul(x.m, y.m))
ZCmp(x, y) == IF x.s # y.s THEN (IF x.s THEN -1 ELSE 1)
              ELSE IF x.s THEN Cmp(y.m, x.m) ELSE Cmp(x.m, y.m)
ZLt(x, y) == ZCmp(x, y) < 0
ZLe(x, y) == ZCmp(x, y) <= 0
ZInt(n) == IF n < 0 THEN Z(TRUE, Nat1(-n)) ELSE ZNat(Nat1(n))      \* -2^31 < n < 2^31
ZAbs(x) == ZNat(x.m)
ZText(x) == IF x.s THEN <<45>> \o ToDigits(x.m) ELSE ToDigits(x.m)
\* text: optional minus sign followed by digits
ZFrom(t) == IF t # <<>> /\ t[1] = 45 THEN Z(TRUE, FromDigits(Tail(t))) ELSE Z(FALSE, FromDigits(t))
=========================================================================
