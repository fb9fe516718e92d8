-------------------------------- MODULE UtilMC --------------------------------
(* The counting machines behind the helpers: counting up an arithmetic         *)
(* progression with the length computed in advance, and the Thue-Morse         *)
(* sequence by its substitution rule 0 -> 01, 1 -> 10, against Util.           *)
EXTENDS Util, TLC
CONSTANTS B, Depth
VARIABLES kind, from, to, step, v, len
vars == <<kind, from, to, step, v, len>>
Abs(x) == IF x < 0 THEN -x ELSE x
N(f, t, s) == IF (s > 0 /\ t <= f) \/ (s < 0 /\ f <= t) THEN 0 ELSE 1 + (Abs(t - f) - 1) \div Abs(s)
Init == \/ kind = "range" /\ from \in -B..B /\ to \in -B..B /\ step \in (-B..B) \ {0} /\ v = <<>> /\ len = N(from, to, step)
        \/ kind = "morse" /\ from = 0 /\ to = Depth /\ step = 0 /\ v = <<0>> /\ len = 0
Count == kind = "range" /\ Len(v) < len /\ v' = Append(v, IF v = <<>> THEN from ELSE v[Len(v)] + step) /\ UNCHANGED <<kind, from, to, step, len>>
RECURSIVE Subst(_, _)
Subst(s, i) == IF i > Len(s) THEN <<>> ELSE <<s[i], 1 - s[i]>> \o Subst(s, i + 1)
Grow == kind = "morse" /\ from < to /\ v' = Subst(v, 1) /\ from' = from + 1 /\ UNCHANGED <<kind, to, step, len>>
Next == Count \/ Grow
Spec == Init /\ [][Next]_vars
RangeRight == kind = "range" => (Len(v) = len) = IsRange([i \in DOMAIN v |-> ZInt(v[i])], ZInt(from), ZInt(to), ZInt(step))
MorseRight == kind = "morse" => \A i \in DOMAIN v : v[i] = Ones(Nat1(i - 1))
CaseRight == \A c \in 0..255 : /\ ToLower(ToUpper(ToLower(c))) = ToLower(c) /\ (ToLower(c) # c <=> IsUpper(c)) /\ (ToUpper(c) # c <=> IsLower(c))
                               /\ IsLetter(c) <=> (IsVowel(c) \/ IsConsonant(c)) /\ ~(IsVowel(c) /\ IsConsonant(c)) /\ ~(IsLetter(c) /\ IsDigit(c))
FlatRight == /\ Flat(<<1, 2>>, 1) = <<1, 2>> /\ Flat(<<<<1>>, <<>>, <<2, 3>>>>, 2) = <<1, 2, 3>> /\ Flat(<<<<1>>, <<2, 3>>>>, 1) = <<<<1>>, <<2, 3>>>>
===============================================================================
