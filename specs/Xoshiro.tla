------------------------------ MODULE Xoshiro ------------------------------
(* The generator xoshiro256** as a set of engines, each a vector of four    *)
(* 64 bit words.  A call returns a scrambled word and steps the state       *)
(* linearly; a jump has the effect of 2^128 calls.                          *)
(*                                                                          *)
(* The step T is linear over GF(2) and satisfies CharPoly(T) = 0.  So       *)
(* T^(2^128) = R(T), R being the remainder of x^(2^128) modulo CharPoly,    *)
(* and a jump is the sum of the T^i(state) over the exponents i of R.       *)
(* XoshiroMC shows CharPoly(T) = 0 and computes R, so that Jump below is    *)
(* what 2^128 calls do, not what the implementation happens to contain.     *)
EXTENDS Word64, FiniteSets
VARIABLES eng        \* engine handle -> state
Word == [1..8 -> 0..255]
Step(s) == LET c == Xor64(s[3], s[1])  d == Xor64(s[4], s[2])
           IN <<Xor64(s[1], d), Xor64(s[2], c), Xor64(c, Shl64(s[2], 17)), Rotl64(d, 45)>>
Output(s) == Mul64(Rotl64(Mul64(s[2], Small(5)), 7), Small(9))
XorState(a, b) == <<Xor64(a[1], b[1]), Xor64(a[2], b[2]), Xor64(a[3], b[3]), Xor64(a[4], b[4])>>
ZeroState == [i \in 1..4 |-> Zero64]
\* polynomials over GF(2) are sets of exponents
CharPoly == {0, 12, 13, 14, 15, 20, 21, 22, 23, 28, 29, 31, 32, 33, 35, 37, 40, 41, 42, 43, 45, 46, 48, 52, 56, 58, 59, 60, 63, 65, 66, 67, 68,
   70, 73, 75, 76, 80, 82, 83, 84, 85, 86, 87, 89, 90, 91, 94, 95, 96, 97, 99, 101, 119, 121, 128, 130, 135, 136, 137, 138, 139, 140, 143, 144,
   146, 149, 153, 154, 157, 160, 161, 162, 163, 166, 167, 168, 170, 171, 173, 174, 175, 178, 180, 181, 183, 186, 192, 195, 196, 200, 201, 203,
   206, 207, 209, 210, 211, 212, 213, 216, 217, 218, 219, 220, 221, 226, 227, 228, 229, 238, 239, 240, 241, 256}
\* x^(2^128) mod CharPoly (computed by XoshiroMC), as four words
JumpWords == << <<186, 10, 253, 60, 211, 198, 14, 24>>, <<44, 57, 201, 240, 102, 18, 166, 213>>, <<170, 201, 63, 224, 24, 38, 88, 169>>, <<28, 102, 177, 41, 69, 220, 171, 57>> >>
Bit(w, b) == (w[(b \div 8) + 1] \div 2 ^ (b % 8)) % 2
JumpPoly == {e \in 0..255 : Bit(JumpWords[(e \div 64) + 1], e % 64) = 1}
\* the value of a polynomial of degree < k at T, applied to s
RECURSIVE Apply(_, _, _, _, _)
Apply(p, s, i, k, acc) == IF i = k THEN acc ELSE Apply(p, Step(s), i + 1, k, IF i \in p THEN XorState(acc, s) ELSE acc)
Jumped(s) == Apply(JumpPoly, s, 0, 256, ZeroState)
\* the first bits of pi
Pi == << <<141, 48, 90, 136, 168, 246, 67, 50>>, <<52, 7, 55, 224, 162, 152, 49, 49>>, <<29, 243, 153, 34, 130, 147, 64, 74>>, <<200, 230, 196, 142, 169, 239, 130, 0>> >>
Seeded(w) == Jumped(<<Xor64(Pi[1], w), Xor64(Pi[2], w), Xor64(Pi[3], w), Xor64(Pi[4], w)>>)
RECURSIVE Run(_, _, _)
Run(s, k, acc) == IF k = 0 THEN [s |-> s, out |-> acc] ELSE Run(Step(s), k - 1, Append(acc, Output(s)))
\* actions
Put(h, s) == eng' = [x \in DOMAIN eng \cup {h} |-> IF x = h THEN s ELSE eng[x]]
New(h, ws) == Put(h, ws)
NewSeeded(h, w) == Put(h, Seeded(w))
Copy(h, g) == Put(h, eng[g])
Call(h, outs) == LET r == Run(eng[h], Len(outs), <<>>) IN r.out = outs /\ Put(h, r.s)
Jump(h) == Put(h, Jumped(eng[h]))
============================================================================
