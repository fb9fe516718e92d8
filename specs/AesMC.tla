------------------------------- MODULE AesMC -------------------------------
(* Encrypts blocks round by round and decrypts the results with the inverse *)
(* operations: the block has to come back, and the examples of FIPS 197     *)
(* have to come out.  A counter of few small digits runs through all values.*)
EXTENDS Aes, TLC
VARIABLES key, rk, plain, s, r, dir, ctr, seen
CONSTANTS Base, Digits
Bytes(n) == [i \in 1..n |-> i - 1]
Keys == {Bytes(32), [i \in 1..32 |-> 0], [i \in 1..32 |-> 255], PiKey,
         <<96, 61, 235, 16, 21, 202, 113, 190, 43, 115, 174, 240, 133, 125, 119, 129, 31, 53, 44, 7, 59, 97, 8, 215, 45, 152, 16, 163, 9, 20, 223, 244>>}
Plains == {[i \in 1..16 |-> 17 * (i - 1)], [i \in 1..16 |-> 0], PiIv,
           <<107, 193, 190, 226, 46, 64, 159, 150, 233, 61, 126, 17, 115, 147, 23, 42>>}
InvSub(a) == (CHOOSE x \in 0..255 : Sub(x) = a)
ShiftBack(t) == <<t[1], t[14], t[11], t[8], t[5], t[2], t[15], t[12], t[9], t[6], t[3], t[16], t[13], t[10], t[7], t[4]>>
InvColumn(t, i) == LET m(a, b, c, d) == (GMul(a, 14) ^^ GMul(b, 11)) ^^ (GMul(c, 13) ^^ GMul(d, 9))
                   IN <<m(t[i], t[i + 1], t[i + 2], t[i + 3]), m(t[i + 1], t[i + 2], t[i + 3], t[i]), m(t[i + 2], t[i + 3], t[i], t[i + 1]), m(t[i + 3], t[i], t[i + 1], t[i + 2])>>
InvMix(t) == InvColumn(t, 1) \o InvColumn(t, 5) \o InvColumn(t, 9) \o InvColumn(t, 13)
RECURSIVE MapSub(_, _)
MapSub(t, acc) == IF Len(acc) = Len(t) THEN acc ELSE MapSub(t, Append(acc, InvSub(t[Len(acc) + 1])))
Undo(t, n) == LET u == XorBlock(t, rk[n + 1]) IN MapSub(ShiftBack(IF n < 14 THEN InvMix(u) ELSE u), <<>>)
Init == /\ key \in Keys /\ plain \in Plains /\ rk = RoundKeys(key) /\ s = XorBlock(plain, rk[1]) /\ r = 0 /\ dir = "fwd"
        /\ ctr = [i \in 1..Digits |-> 0] /\ seen = {} /\ cipher = <<>> /\ gen = <<>>
Fwd == dir = "fwd" /\ r < 14 /\ s' = RoundStep(s, rk, r + 1) /\ r' = r + 1 /\ UNCHANGED dir
Turn == dir = "fwd" /\ r = 14 /\ dir' = "back" /\ UNCHANGED <<s, r>>
Back == dir = "back" /\ r > 0 /\ s' = Undo(s, r) /\ r' = r - 1 /\ UNCHANGED dir
Count == /\ dir = "back" /\ r = 0 /\ ctr \notin seen /\ plain = PiIv /\ key = PiKey
         /\ seen' = seen \cup {ctr} /\ ctr' = IncFrom(ctr, 1, Base) /\ UNCHANGED <<s, r, dir>>
Next == (((Fwd \/ Turn \/ Back) /\ UNCHANGED <<ctr, seen>>) \/ Count) /\ UNCHANGED <<key, rk, plain, cipher, gen>>
Spec == Init /\ [][Next]_<<key, rk, plain, s, r, dir, ctr, seen, cipher, gen>>
ComesBack == (dir = "back" /\ r = 0) => XorBlock(s, rk[1]) = plain
Whole == (dir = "fwd" /\ r = 14) => s = Encrypt(rk, plain)
\* FIPS 197 C.3, SP 800-38A F.1.5
Vectors == (dir = "fwd" /\ r = 14) =>
   /\ (key = Bytes(32) /\ plain[2] = 17) => s = <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>
   /\ (key[1] = 96 /\ plain[1] = 107) => s = <<243, 238, 209, 189, 181, 210, 160, 60, 6, 75, 90, 126, 61, 177, 129, 248>>
\* the last word of the key expansion in FIPS 197 A.3
LastWord == key[1] = 96 => SubSeq(rk[15], 13, 16) = <<112, 108, 99, 30>>
\* no value of the counter comes back before all others
FullPeriod == ctr \in seen => \A f \in [1..Digits -> 0..(Base - 1)] : f \in seen
ASSUME /\ \A a \in 0..255 : Sub(a) = SboxValue(a)
       /\ {Sub(a) : a \in 0..255} = 0..255 /\ \A a \in 1..255 : GMul(a, Inv(a)) = 1
       /\ Sub(0) = 99 /\ Sub(83) = 237 /\ GMul(87, 131) = 193 /\ \A a \in 0..255 : XTime(a) = GMul(a, 2)
       /\ Inc([i \in 1..16 |-> 255]) = [i \in 1..16 |-> 0] /\ Inc([i \in 1..16 |-> IF i < 9 THEN 255 ELSE 0]) = [i \in 1..16 |-> IF i = 9 THEN 1 ELSE 0]
============================================================================
