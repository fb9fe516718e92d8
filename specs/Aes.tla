-------------------------------- MODULE Aes --------------------------------
(* AES with a 256 bit key (FIPS 197), from its definition over GF(2^8), and *)
(* the generator built from it: a 128 bit counter, least significant byte   *)
(* first, is incremented, encrypted, and the two halves of the block are    *)
(* added to a 64 bit word.  Blocks and keys are sequences of bytes.         *)
EXTENDS Word64
VARIABLES cipher,      \* cipher handle -> expanded key (15 round keys of 16 bytes)
          gen          \* generator handle -> [k |-> expanded key, c |-> counter]
\* GF(2^8) modulo x^8 + x^4 + x^3 + x + 1
XTime(a) == IF a < 128 THEN 2 * a ELSE (2 * a - 256) ^^ 27
RECURSIVE GMulFrom(_, _, _)
GMulFrom(a, b, acc) == IF b = 0 THEN acc ELSE GMulFrom(XTime(a), b \div 2, IF b % 2 = 1 THEN acc ^^ a ELSE acc)
GMul(a, b) == GMulFrom(a, b, 0)
\* the inverse of a is a^254
Sq(a) == GMul(a, a)
RECURSIVE InvFrom(_, _, _)
InvFrom(p, n, acc) == IF n = 0 THEN acc ELSE LET q == Sq(p) IN InvFrom(q, n - 1, GMul(acc, q))
Inv(a) == InvFrom(a, 7, 1)
RotByte(a, n) == ((a * 2 ^ n) % 256) + (a \div 2 ^ (8 - n))
Affine(a) == ((a ^^ RotByte(a, 1)) ^^ (RotByte(a, 2) ^^ RotByte(a, 3))) ^^ (RotByte(a, 4) ^^ 99)
SboxValue(a) == Affine(Inv(a))
\* the table of SboxValue (checked in AesMC)
Sbox == <<99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118, 202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
         183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21, 4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
         9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132, 83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
         208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
         205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115, 96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
         224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
         186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
         225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223, 140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>
Sub(a) == Sbox[a + 1]
\* blocks
XorBlock(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8],
                    a[9] ^^ b[9], a[10] ^^ b[10], a[11] ^^ b[11], a[12] ^^ b[12], a[13] ^^ b[13], a[14] ^^ b[14], a[15] ^^ b[15], a[16] ^^ b[16]>>
\* substitution and shift of the rows: row r of column c comes from column c + r
SubShift(s) == <<Sub(s[1]), Sub(s[6]), Sub(s[11]), Sub(s[16]), Sub(s[5]), Sub(s[10]), Sub(s[15]), Sub(s[4]),
                 Sub(s[9]), Sub(s[14]), Sub(s[3]), Sub(s[8]), Sub(s[13]), Sub(s[2]), Sub(s[7]), Sub(s[12])>>
Mix4(a, b, c, d) == ((XTime(a) ^^ XTime(b)) ^^ b) ^^ (c ^^ d)
Column(s, i) == <<Mix4(s[i], s[i + 1], s[i + 2], s[i + 3]), Mix4(s[i + 1], s[i + 2], s[i + 3], s[i]),
                  Mix4(s[i + 2], s[i + 3], s[i], s[i + 1]), Mix4(s[i + 3], s[i], s[i + 1], s[i + 2])>>
MixColumns(s) == Column(s, 1) \o Column(s, 5) \o Column(s, 9) \o Column(s, 13)
\* key expansion: words w[0..59], as one sequence of 240 bytes
RECURSIVE Expand(_)
Expand(w) == IF Len(w) = 240 THEN w
    ELSE LET i == Len(w) \div 4
             p == SubSeq(w, Len(w) - 3, Len(w))
             t == IF i % 8 = 0 THEN <<Sub(p[2]) ^^ (2 ^ ((i \div 8) - 1)), Sub(p[3]), Sub(p[4]), Sub(p[1])>>
                  ELSE IF i % 8 = 4 THEN <<Sub(p[1]), Sub(p[2]), Sub(p[3]), Sub(p[4])>> ELSE p
             b == Len(w) - 32
         IN Expand(w \o <<w[b + 1] ^^ t[1], w[b + 2] ^^ t[2], w[b + 3] ^^ t[3], w[b + 4] ^^ t[4]>>)
RECURSIVE Rounds(_, _)
Rounds(w, acc) == IF Len(acc) = 15 THEN acc ELSE Rounds(w, Append(acc, SubSeq(w, 16 * Len(acc) + 1, 16 * Len(acc) + 16)))
RoundKeys(key) == Rounds(Expand(key), <<>>)
RoundStep(s, rk, r) == XorBlock(IF r < 14 THEN MixColumns(SubShift(s)) ELSE SubShift(s), rk[r + 1])
RECURSIVE From(_, _, _)
From(s, rk, r) == IF r > 14 THEN s ELSE From(RoundStep(s, rk, r), rk, r + 1)
Encrypt(rk, block) == From(XorBlock(block, rk[1]), rk, 1)
\* the counter
RECURSIVE IncFrom(_, _, _)
IncFrom(c, i, base) == IF i > Len(c) THEN c ELSE IF c[i] = base - 1 THEN IncFrom([c EXCEPT ![i] = 0], i + 1, base) ELSE [c EXCEPT ![i] = @ + 1]
Inc(c) == IncFrom(c, 1, 256)
Fold(b) == Xor64(SubSeq(b, 1, 8), SubSeq(b, 9, 16))
PiKey == <<50, 67, 246, 168, 136, 90, 48, 141, 49, 49, 152, 162, 224, 55, 7, 52, 74, 64, 147, 130, 34, 153, 243, 29, 0, 130, 239, 169, 142, 196, 230, 200>>
PiIv == <<148, 82, 130, 30, 99, 141, 1, 55, 123, 229, 70, 108, 243, 78, 144, 198>>
SeedIv(w) == Xor64(SubSeq(PiIv, 1, 8), w) \o SubSeq(PiIv, 9, 16)
RECURSIVE Draw(_, _, _, _)
Draw(rk, c, n, acc) == IF n = 0 THEN [c |-> c, out |-> acc] ELSE LET d == Inc(c) IN Draw(rk, d, n - 1, Append(acc, Fold(Encrypt(rk, d))))
Set(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
NewCipher(h, key) == cipher' = Set(cipher, h, RoundKeys(key)) /\ UNCHANGED gen
EncryptBlock(h, in, out) == Encrypt(cipher[h], in) = out /\ UNCHANGED <<cipher, gen>>
NewGen(h, key, iv) == gen' = Set(gen, h, [k |-> RoundKeys(key), c |-> iv]) /\ UNCHANGED cipher
NewSeeded(h, w) == NewGen(h, PiKey, SeedIv(w))
CopyGen(h, g) == gen' = Set(gen, h, gen[g]) /\ UNCHANGED cipher
Call(h, outs) == LET r == Draw(gen[h].k, gen[h].c, Len(outs), <<>>) IN r.out = outs /\ gen' = [gen EXCEPT ![h].c = r.c] /\ UNCHANGED cipher
============================================================================
