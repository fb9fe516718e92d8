------------------------------ MODULE MT19937 ------------------------------
(* The 64 bit Mersenne twister of the C++ standard, as a state machine over *)
(* the 312 words of its state.                                              *)
EXTENDS Word64
VARIABLES mt, idx          \* state words, number of words of mt already given out
N == 312
M == 156
A64 == <<233, 25, 102, 169, 90, 111, 2, 181>>                      \* b5026f5a a96619e9
MulSeed == FromText64(<<54, 51, 54, 52, 49, 51, 54, 50, 50, 51, 56, 52, 54, 55, 57, 51, 48, 48, 53>>)   \* 6364136223846793005
RECURSIVE SeedFrom(_)
SeedFrom(s) == IF Len(s) = N THEN s
               ELSE LET x == s[Len(s)] IN SeedFrom(Append(s, Add64(Mul64(MulSeed, Xor64(x, Shr64(x, 62))), Small(Len(s)))))
SeedState(w) == SeedFrom(<<w>>)
Upper(a) == <<0, 0, 0, (a[4] \div 128) * 128, a[5], a[6], a[7], a[8]>>    \* bits 31..63
Lower(a) == <<a[1], a[2], a[3], a[4] % 128, 0, 0, 0, 0>>                   \* bits 0..30
Mix(hi, lo, far) == LET y == Or64(Upper(hi), Lower(lo))
                    IN Xor64(far, IF y[1] % 2 = 1 THEN Xor64(Shr64(y, 1), A64) ELSE Shr64(y, 1))
RECURSIVE TwistFrom(_, _)
\* new words in order; word i uses old words i, i+1 and (old or new) i+M
TwistFrom(old, acc) == IF Len(acc) = N THEN acc
    ELSE LET i == Len(acc)
             lo == IF i + 2 <= N THEN old[i + 2] ELSE acc[1]
             far == IF i + 1 + M <= N THEN old[i + 1 + M] ELSE acc[i + 1 + M - N]
         IN TwistFrom(old, Append(acc, Mix(old[i + 1], lo, far)))
Twist(s) == TwistFrom(s, <<>>)
T1 == <<85, 85, 85, 85, 85, 85, 85, 85>>
T2 == <<0, 0, 166, 237, 255, 127, 214, 113>>       \* 71d67fff eda60000
T3 == <<0, 0, 0, 0, 224, 238, 247, 255>>             \* fff7eee0 00000000
Temper(x) == LET a == Xor64(x, And64(Shr64(x, 29), T1))
                 b == Xor64(a, And64(Shl64(a, 17), T2))
                 c == Xor64(b, And64(Shl64(b, 37), T3))
             IN Xor64(c, Shr64(c, 43))
SeedWith(w) == mt' = Twist(SeedState(w)) /\ idx' = 0
\* the next k outputs, k <= N, and the state after them
Skip(k) == IF idx + k <= N THEN mt' = mt /\ idx' = idx + k ELSE mt' = Twist(mt) /\ idx' = idx + k - N
Next64(k) == LET t == Twist(mt) IN [j \in 1..k |-> Temper(IF idx + j <= N THEN mt[idx + j] ELSE t[idx + j - N])]
============================================================================
