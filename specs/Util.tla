--------------------------------- MODULE Util ---------------------------------
(* Characters as bytes, arithmetic progressions, the Thue-Morse sequence and   *)
(* small container helpers, by definition.                                     *)
EXTENDS BigNat, FiniteSets
IsLower(c) == c \in 97..122
IsUpper(c) == c \in 65..90
IsLetter(c) == IsLower(c) \/ IsUpper(c)
IsDigit(c) == c \in 48..57
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
IsVowel(c) == ToLower(c) \in {97, 101, 105, 111, 117}
IsConsonant(c) == IsLetter(c) /\ ~IsVowel(c)
Class(k, c) == CASE k = 1 -> IsLower(c) [] k = 2 -> IsUpper(c) [] k = 3 -> IsLetter(c) [] k = 4 -> IsDigit(c) [] k = 5 -> IsVowel(c) [] OTHER -> IsConsonant(c)
\* the named alphabets as sets of characters
AlphaNum(c) == IsLetter(c) \/ IsDigit(c)
Alphabet(k) == {c \in 0..127 : CASE k = 1 -> IsLetter(c) [] k = 2 -> IsUpper(c) [] k = 3 -> IsLower(c)
                  [] k = 4 -> IsVowel(c) [] k = 5 -> IsVowel(c) /\ IsUpper(c) [] k = 6 -> IsVowel(c) /\ IsLower(c)
                  [] k = 7 -> IsConsonant(c) [] k = 8 -> IsConsonant(c) /\ IsUpper(c) [] k = 9 -> IsConsonant(c) /\ IsLower(c)
                  [] k = 10 -> AlphaNum(c) [] k = 11 -> IsUpper(c) \/ IsDigit(c) [] k = 12 -> IsLower(c) \/ IsDigit(c)
                  [] k = 13 -> IsDigit(c) [] OTHER -> c \in {40, 41, 91, 93, 123, 125, 60, 62}}
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
\* from, from+step, .. before to (below for a positive, above for a negative step)
Inside(x, to, step) == IF step.s THEN ZLt(to, x) ELSE ZLt(x, to)
IsRange(v, from, to, step) ==
    /\ \A i \in DOMAIN v : v[i] = (IF i = 1 THEN from ELSE ZAdd(v[i - 1], step)) /\ Inside(v[i], to, step)
    /\ ~Inside(IF v = <<>> THEN from ELSE ZAdd(v[Len(v)], step), to, step)
\* parity of the ones of the binary representation
RECURSIVE Ones(_)
Ones(n) == IF n = <<>> THEN 0 ELSE LET d == DivSmall(n, 2) IN (d.r + Ones(d.q)) % 2
RECURSIVE Flat(_, _)
RECURSIVE FlatFrom(_, _, _)
Flat(s, d) == IF d = 0 THEN <<s>> ELSE FlatFrom(s, d, 1)
FlatFrom(s, d, i) == IF i > Len(s) THEN <<>> ELSE Flat(s[i], d - 1) \o FlatFrom(s, d, i + 1)
===============================================================================
