----------------------------- MODULE NumTheoryMC -----------------------------
(* The exact arithmetic of NumTheory against small integers, and the         *)
(* algorithms used for it as machines on small words, exhaustively:          *)
(*  - "arith": division, powers, inverses and primality of NumTheory         *)
(*  - "ladder": squaring and multiplying bit by bit keeps                    *)
(*       res * base^exp = wanted ("add": res + base * exp)                   *)
(*  - "sieve": the segmented sieve marks exactly the composites of a window  *)
EXTENDS NumTheory, TLC, FiniteSets
CONSTANTS MaxM, MaxN, MaxW
VARIABLES kind, m, a, e, res, base, ex, marks
vars == <<kind, m, a, e, res, base, ex, marks>>
N1(n) == Nat1(n)
RECURSIVE Power(_, _, _)
Power(b, k, mm) == IF k = 0 THEN 1 % mm ELSE (b * Power(b, k - 1, mm)) % mm
Init == kind = "start" /\ m \in 1..MaxN /\ a = 0 /\ e = 0 /\ res = 0 /\ base = 0 /\ ex = 0 /\ marks = {}
Pick == /\ kind = "start" /\ UNCHANGED m
        /\ \/ kind' = "arith" /\ UNCHANGED <<a, e, res, base, ex, marks>>
           \/ m <= MaxM /\ kind' = "ladder" /\ a' \in 0..(m - 1) /\ e' \in 0..MaxM /\ res' = 1 % m /\ base' = a' /\ ex' = e' /\ marks' = {}
           \/ m <= MaxM /\ kind' = "add" /\ a' \in 0..(m - 1) /\ e' \in 0..(m - 1) /\ res' = 0 /\ base' = a' /\ ex' = e' /\ marks' = {}
           \* window [m, m + e), sieving with the odd numbers from 3 below e
           \/ m >= 2 /\ kind' = "sieve" /\ e' \in 0..MaxW /\ a' = 3 /\ UNCHANGED <<res, base, ex, marks>>
Ladder == kind = "ladder" /\ ex > 0 /\ res' = (IF ex % 2 = 1 THEN (base * res) % m ELSE res) /\ base' = (base * base) % m /\ ex' = ex \div 2
          /\ UNCHANGED <<kind, m, a, e, marks>>
AddUp == kind = "add" /\ ex > 0 /\ res' = (IF ex % 2 = 1 THEN (base + res) % m ELSE res) /\ base' = (base + base) % m /\ ex' = ex \div 2
         /\ UNCHANGED <<kind, m, a, e, marks>>
SMax(x, y) == IF x > y THEN x ELSE y
Sieve == /\ kind = "sieve" /\ a < e
         /\ LET low == (m - (m % (2 * a))) + a
                lowest == IF low < m THEN low + 2 * a ELSE low
                start == SMax(a * a, lowest)
            IN marks' = marks \cup {j \in start..(m + e - 1) : (j - start) % (2 * a) = 0}
         /\ a' = a + 2 /\ UNCHANGED <<kind, m, e, res, base, ex>>
Next == Pick \/ Ladder \/ AddUp \/ Sieve
Spec == Init /\ [][Next]_vars
LadderInv == kind = "ladder" => (res * Power(base, ex, m)) % m = Power(a, e, m)
AddInv == kind = "add" => (res + base * ex) % m = (a * e) % m
\* every odd composite is found, unless it is at least e*e
SieveDone == (kind = "sieve" /\ a >= e) => \A j \in m..(m + e - 1) : (j % 2 = 1 /\ (j < e * e \/ j \in marks)) => ((j \in marks) = ~SmallPrime(j))
\* NumTheory's operators
RECURSIVE GcdI(_, _)
GcdI(x, y) == IF y = 0 THEN x ELSE GcdI(y, x % y)
Arith == kind = "arith" =>
    /\ Prime(N1(m)) = SmallPrime(m)
    \* beyond the table of small divisors the strong pseudoprime test decides
    /\ \A k \in {94000 + m, 999000 + m, 25326000 + m - 1, 1373600 + m} : Prime(N1(k)) = (\A d \in 2..5040 : d * d > k \/ k % d # 0)
    /\ (m % 2 = 1 /\ m > 40) => (AllStrong(N1(m), 1, 12) = SmallPrime(m))
    /\ \A b \in {1, 2, 7, 999, 1000, 1001, 4711, 99999} : LET q == QuoRem(N1(m * 37), N1(b)) IN q.q = N1((m * 37) \div b) /\ q.r = N1((m * 37) % b)
    /\ LET big == Mul(N1(m), Mul(N1(999999), N1(1000001)))     \* multi limb divisors: (q*b + r) comes apart again
           d == AddSmall(Mul(N1(m), N1(777777)), 12345)
           x == AddSmall(Mul(big, d), m)
       IN QuoRem(x, d).q = big /\ QuoRem(x, d).r = N1(m)
    /\ m <= MaxM => \A x \in 0..(m - 1) : /\ PowM(N1(x), N1(m + 3), N1(m)) = N1(Power(x, m + 3, m))
                                          /\ Gcd(N1(x), N1(m)) = N1(GcdI(x, m))
                                          /\ ((\E r \in 0..(m - 1) : IsInverse(N1(r), ZInt(x), N1(m))) = (GcdI(x, m) = 1))
                                          /\ Cardinality({r \in 0..(m - 1) : IsInverse(N1(r), ZInt(x - m), N1(m))}) <= 1
==============================================================================
