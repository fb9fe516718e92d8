------------------------------- MODULE Word64 -------------------------------
(* 64 bit words as eight bytes, least significant first, with the machine   *)
(* operations on them.                                                      *)
EXTENDS Integers, Sequences, Bitwise
Zero64 == <<0, 0, 0, 0, 0, 0, 0, 0>>
One64 == <<1, 0, 0, 0, 0, 0, 0, 0>>
Small(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8]>>
And64(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4], a[5] & b[5], a[6] & b[6], a[7] & b[7], a[8] & b[8]>>
Or64(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4], a[5] | b[5], a[6] | b[6], a[7] | b[7], a[8] | b[8]>>
B(a, i) == IF i \in 1..8 THEN a[i] ELSE 0
ShlByte(a, i, q, p) == ((B(a, i - q) * p) % 256) + ((B(a, i - q - 1) * p) \div 256)
ShrByte(a, i, q, p) == (B(a, i + q) \div p) + ((B(a, i + q + 1) * (256 \div p)) % 256)
Shl64(a, k) == LET q == k \div 8  p == 2 ^ (k % 8) IN <<ShlByte(a, 1, q, p), ShlByte(a, 2, q, p), ShlByte(a, 3, q, p), ShlByte(a, 4, q, p), ShlByte(a, 5, q, p), ShlByte(a, 6, q, p), ShlByte(a, 7, q, p), ShlByte(a, 8, q, p)>>
Shr64(a, k) == LET q == k \div 8  p == 2 ^ (k % 8) IN <<ShrByte(a, 1, q, p), ShrByte(a, 2, q, p), ShrByte(a, 3, q, p), ShrByte(a, 4, q, p), ShrByte(a, 5, q, p), ShrByte(a, 6, q, p), ShrByte(a, 7, q, p), ShrByte(a, 8, q, p)>>
Rotl64(a, k) == Or64(Shl64(a, k), Shr64(a, 64 - k))
RECURSIVE Prop64(_, _, _, _)
Prop64(s, i, c, acc) == IF i > 8 THEN acc ELSE Prop64(s, i + 1, (s[i] + c) \div 256, Append(acc, (s[i] + c) % 256))
Carry64(s) == Prop64(s, 1, 0, <<>>)                    \* sums of limbs to a word, modulo 2^64
Add64(a, b) == Carry64([i \in 1..8 |-> a[i] + b[i]])
RECURSIVE Col64(_, _, _, _, _)
Col64(a, b, k, i, s) == IF i > k THEN s ELSE Col64(a, b, k, i + 1, s + a[i] * b[k + 1 - i])
Mul64(a, b) == Carry64([k \in 1..8 |-> Col64(a, b, k, 1, 0)])
\* decimal text (bytes) modulo 2^64, with or without a minus sign
RECURSIVE Dec64(_, _, _)
Dec64(d, i, acc) == IF i > Len(d) THEN acc ELSE Dec64(d, i + 1, Add64(Mul64(acc, Small(10)), Small(d[i] - 48)))
Neg64(a) == Add64([i \in 1..8 |-> 255 - a[i]], One64)
FromText64(d) == IF d # <<>> /\ d[1] = 45 THEN Neg64(Dec64(d, 2, Zero64)) ELSE Dec64(d, 1, Zero64)
============================================================================
