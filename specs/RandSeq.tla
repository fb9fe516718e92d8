----------------------------- MODULE RandSeq -----------------------------
(* Random sequence generators: for arguments p (small integers) and word    *)
(* data w, whether the request is legal, which results are valid, and the   *)
(* set of all results, each of which has to be equally likely.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Inj(s) == Cardinality(Range(s)) = Len(s)
Strict(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Weak(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
In(s, lo, hi) == \A i \in DOMAIN s : s[i] \in lo..(hi - 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Count(s, x) = Count(t, x)
IsPerm(s, o) == Range(s) = o..(o + Len(s) - 1)
\* cycle lengths of a permutation of o..o+n-1 (s[i] is the image of o+i-1)
RECURSIVE Orbit(_, _, _, _)
Orbit(s, o, x, acc) == IF x \in acc THEN acc ELSE Orbit(s, o, s[x - o + 1], acc \cup {x})
CycleBag(s, o) == [L \in 1..Len(s) |-> Cardinality({x \in o..(o + Len(s) - 1) : Cardinality(Orbit(s, o, x, {})) = L})]
WantBag(c, n) == [L \in 1..n |-> L * Cardinality({i \in DOMAIN c : c[i] = L})]
OPEN == 1
CLOSE == 2
Bal(s, i) == Cardinality({j \in 1..i : s[j] = OPEN}) - Cardinality({j \in 1..i : s[j] = CLOSE})
Dyck(s, n) == Len(s) = 2 * n /\ Range(s) \subseteq {OPEN, CLOSE} /\ (\A i \in DOMAIN s : Bal(s, i) >= 0) /\ Bal(s, 2 * n) = 0
Rot(s, r) == [i \in DOMAIN s |-> s[((i - 1 + r) % Len(s)) + 1]]

\* p: numbers; w: given sequence (cycle lengths, fixed points, alphabet, container)
Legal(f, p, w) ==
    CASE f \in {"distinct", "inc", "dec"} -> p[1] >= 0 /\ p[2] + p[1] <= p[3]
      [] f \in {"mult", "ninc", "ndec"} -> p[1] >= 0 /\ (p[1] = 0 \/ p[2] < p[3])
      [] f = "perm" -> p[1] >= 0
      [] f = "cyc" -> \A i \in DOMAIN w : w[i] > 0
      [] f = "fix" -> p[1] >= 0 /\ \A i \in DOMAIN w : w[i] \in p[2]..(p[2] + p[1] - 1)
      [] f = "part" -> p[1] > 0 /\ p[2] > 0 /\ (p[3] <= 0 \/ p[2] <= p[1] \div p[3])
      [] f = "string" -> p[1] >= 0 /\ w # <<>>
      [] f = "bracket" -> p[1] >= 0
      [] f = "shuffle" -> TRUE
      [] f \in {"select", "rotate"} -> w # <<>>
\* the request may be answered either way
Open(f, p, w) == f \in {"mult", "ninc", "ndec"} /\ p[1] = 0 /\ p[2] >= p[3]
\* r: result; a: rotation amount or index of the selected element, from 0
Valid(f, p, w, r, a) ==
    CASE f = "distinct" -> Len(r) = p[1] /\ Inj(r) /\ In(r, p[2], p[3])
      [] f = "inc" -> Len(r) = p[1] /\ Strict(r) /\ In(r, p[2], p[3])
      [] f = "dec" -> Len(r) = p[1] /\ Strict(Rev(r)) /\ In(r, p[2], p[3])
      [] f = "mult" -> Len(r) = p[1] /\ In(r, p[2], p[3])
      [] f = "ndec" -> Len(r) = p[1] /\ Weak(r) /\ In(r, p[2], p[3])
      [] f = "ninc" -> Len(r) = p[1] /\ Weak(Rev(r)) /\ In(r, p[2], p[3])
      [] f = "perm" -> Len(r) = p[1] /\ IsPerm(r, p[2])
      [] f = "cyc" -> Len(r) = Sum(w) /\ IsPerm(r, p[1]) /\ CycleBag(r, p[1]) = WantBag(w, Sum(w))
      [] f = "fix" -> Len(r) = p[1] /\ IsPerm(r, p[2]) /\ \A i \in DOMAIN w : r[w[i] - p[2] + 1] = w[i]
      [] f = "part" -> Len(r) = p[2] /\ Sum(r) = p[1] /\ \A i \in DOMAIN r : r[i] >= p[3]
      [] f = "string" -> Len(r) = p[1] /\ Range(r) \subseteq Range(w)
      [] f = "bracket" -> Dyck(r, p[1])
      [] f = "shuffle" -> SameBag(r, w)
      [] f = "select" -> Len(r) = 1 /\ r[1] \in Range(w)
      [] f = "rotate" -> a \in 0..(Len(w) - 1) /\ r = Rot(w, a)
\* all results of a legal request
Seqs(S, n) == [1..n -> S]
PermsOf(o, n) == {s \in Seqs(o..(o + n - 1), n) : Inj(s)}
All(f, p, w) ==
    CASE f \in {"distinct", "inc", "dec", "mult"} -> {s \in Seqs(p[2]..(p[3] - 1), p[1]) : Valid(f, p, w, s, 0)}
      [] f = "perm" -> PermsOf(p[2], p[1])
      [] f = "cyc" -> {s \in PermsOf(p[1], Sum(w)) : Valid(f, p, w, s, 0)}
      [] f = "fix" -> {s \in PermsOf(p[2], p[1]) : Valid(f, p, w, s, 0)}
      [] f = "part" -> {s \in Seqs(p[3]..(p[1] - (p[2] - 1) * p[3]), p[2]) : Sum(s) = p[1]}
      [] f = "string" -> Seqs(Range(w), p[1])
      [] f = "bracket" -> {s \in Seqs({OPEN, CLOSE}, 2 * p[1]) : Dyck(s, p[1])}
      [] f = "shuffle" -> {[i \in DOMAIN w |-> w[q[i]]] : q \in PermsOf(1, Len(w))}
      [] f = "select" -> {<<x>> : x \in Range(w)}
      [] f = "rotate" -> {Rot(w, a) : a \in 0..(Len(w) - 1)}
============================================================================
