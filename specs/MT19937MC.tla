----------------------------- MODULE MT19937MC -----------------------------
(* The twister against the value the C++ standard requires: the 10000th     *)
(* output from the seed 5489 is 9981545732273789042.                        *)
EXTENDS MT19937, TLC
VARIABLE done
Init == mt = Twist(SeedState(Small(5489))) /\ idx = 0 /\ done = 0
Next == done + 125 <= 9875 /\ Skip(125) /\ done' = done + 125
Spec == Init /\ [][Next]_<<mt, idx, done>>
Required == done = 9875 => Next64(125)[125] = FromText64(<<57, 57, 56, 49, 53, 52, 53, 55, 51, 50, 50, 55, 51, 55, 56, 57, 48, 52, 50>>)
Words == idx \in 0..N /\ Len(mt) = N /\ \A i \in {1, M, N} : \A j \in 1..8 : mt[i][j] \in 0..255
ASSUME /\ Mul64(FromText64(<<45, 49>>), FromText64(<<45, 49>>)) = One64
       /\ Add64(Neg64(Small(77)), Small(77)) = Zero64
       /\ \A k \in 1..63 : Rotl64(Rotl64(A64, k), 64 - k) = A64 /\ Mul64(A64, Shl64(One64, k)) = Shl64(A64, k) /\ Shr64(Shl64(A64, k), k) = And64(A64, Shr64(Neg64(One64), k))
============================================================================
