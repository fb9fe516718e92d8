------------------------------- MODULE DrawMC -------------------------------
(* The drawing rule with words of W bits, exhaustively: for every range size*)
(* every value has exactly the same number of accepted words, and at least  *)
(* half of the words are accepted.  The machine looks at all words in turn. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANT MaxW
VARIABLES W, s, x, hits, skipped
vars == <<W, s, x, hits, skipped>>
N == 2 ^ W
Init == W \in 1..MaxW /\ s \in 1..(2 ^ W - 1) /\ x = 0 /\ hits = [v \in 0..(s - 1) |-> 0] /\ skipped = 0
Value(y) == (y * s) \div N
Ok(y) == (y * s) % N >= (N % s)
Look == /\ x < N /\ x' = x + 1 /\ UNCHANGED <<W, s>>
        /\ IF Ok(x) THEN hits' = [hits EXCEPT ![Value(x)] = @ + 1] /\ UNCHANGED skipped
           ELSE skipped' = skipped + 1 /\ UNCHANGED hits
Next == Look
Spec == Init /\ [][Next]_vars
Uniform == x = N => \A v \in 0..(s - 1) : hits[v] = N \div s
Terminates == x = N => 2 * skipped < N
\* only words whose low part is below s need the threshold
Shortcut == \A y \in {x} : y < N /\ (y * s) % N >= s => Ok(y)
\* parity of the bits of a word is fair: words pair up by flipping the lowest bit
RECURSIVE Ones(_)
Ones(y) == IF y = 0 THEN 0 ELSE (y % 2) + Ones(y \div 2)
FairBit == x < N => (Ones(x) % 2) # (Ones(IF x % 2 = 0 THEN x + 1 ELSE x - 1) % 2)
============================================================================
