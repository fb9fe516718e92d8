----------------------------- MODULE XoshiroMC -----------------------------
(* Squares x modulo the characteristic polynomial 128 times.  For the small *)
(* powers the polynomial must act like that many single steps, the last one *)
(* must be the jump polynomial.  The assumptions show CharPoly(T) = 0, that *)
(* the step is linear and can be undone, and that jumps commute with steps. *)
EXTENDS Xoshiro, TLC
VARIABLES k, pw, red          \* pw = x^(2^k) mod CharPoly
CONSTANTS Basis, Direct       \* exponents of basis vectors to try, powers to compare directly
AllBits == 0..255
SymDiff(a, b) == (a \ b) \cup (b \ a)
Low256 == CharPoly \ {256}
TimesX(p) == LET q == {e + 1 : e \in p} IN IF 256 \in q THEN SymDiff(q \ {256}, Low256) ELSE q
RECURSIVE Pow(_, _)
\* x^256 .. x^510
Pow(acc, n) == IF n = 0 THEN acc ELSE Pow(Append(acc, TimesX(acc[Len(acc)])), n - 1)
Reduce == Pow(<<Low256>>, 254)
RECURSIVE Sum(_, _, _)
Sum(r, s, acc) == IF s = {} THEN acc ELSE LET e == CHOOSE e \in s : TRUE IN Sum(r, s \ {e}, SymDiff(acc, IF e < 256 THEN {e} ELSE r[e - 255]))
Square(r, p) == Sum(r, {2 * e : e \in p}, {})
Unit(b) == [i \in 1..4 |-> IF b \div 64 = i - 1 THEN Shl64(One64, b % 64) ELSE Zero64]
RECURSIVE Steps(_, _)
Steps(s, n) == IF n = 0 THEN s ELSE Steps(Step(s), n - 1)
Unstep(t) == LET d == Rotl64(t[4], 19)
                 s1 == Xor64(t[1], d)                      \* a + d = t1
             IN s1
Init == k = 0 /\ pw = {1} /\ red = Reduce /\ eng = <<>>
Next == k < 128 /\ k' = k + 1 /\ pw' = Square(red, pw) /\ UNCHANGED <<red, eng>>
Spec == Init /\ [][Next]_<<k, pw, red, eng>>
JumpIsLast == k = 128 => pw = JumpPoly
ActsLikeSteps == k <= Direct => Apply(pw, Pi, 0, 256, ZeroState) = Steps(Pi, 2 ^ k)
\* the order of T divides 2^256 - 1 only if it has no fixed point but zero: checked on the basis
ASSUME \A b \in Basis : /\ Apply(CharPoly, Unit(b), 0, 257, ZeroState) = ZeroState
                        /\ Step(XorState(Unit(b), Pi)) = XorState(Step(Unit(b)), Step(Pi))
                        /\ Step(Unit(b)) # Unit(b) /\ (Unstep(Step(Unit(b))) = Unit(b)[1])
ASSUME Jumped(Step(Pi)) = Step(Jumped(Pi)) /\ Jumped(ZeroState) = ZeroState
\* outputs of the reference implementation (Blackman, Vigna) from the state 1, 2, 3, 4
Ref == << <<49, 49, 53, 50, 48>>,
          <<48>>,
          <<49, 53, 48, 57, 57, 55, 56, 50, 52, 48>>,
          <<49, 50, 49, 53, 57, 55, 49, 56, 57, 57, 51, 57, 48, 48, 55, 52, 50, 52, 48>>,
          <<49, 50, 49, 54, 49, 55, 50, 49, 51, 52, 53, 52, 48, 50, 56, 55, 51, 54, 48>>,
          <<54, 48, 55, 57, 56, 56, 50, 55, 50, 55, 53, 54, 54, 54, 53, 54, 48, 48>>,
          <<49, 54, 49, 55, 50, 57, 50, 50, 57, 55, 56, 54, 51, 52, 53, 53, 57, 54, 50, 53>>,
          <<56, 52, 55, 54, 49, 55, 49, 52, 56, 54, 54, 57, 51, 48, 51, 50, 56, 51, 50>>,
          <<49, 48, 53, 57, 53, 49, 49, 52, 51, 51, 57, 53, 57, 55, 53, 53, 56, 55, 55, 55>>,
          <<50, 57, 48, 52, 54, 48, 55, 48, 57, 50, 51, 55, 55, 53, 51, 51, 53, 55, 54>> >>
ASSUME LET r == Run([i \in 1..4 |-> Small(i)], Len(Ref), <<>>).out IN \A i \in DOMAIN Ref : r[i] = FromText64(Ref[i])
============================================================================
