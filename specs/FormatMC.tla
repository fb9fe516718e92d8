------------------------------ MODULE FormatMC ------------------------------
(* Sanity of the output model: separators, nesting, splitting of joins.     *)
EXTENDS Format, TLC
CONSTANT MaxLen
VARIABLES vals, sep
vars == <<fmtvars, vals, sep>>
Leaf == {[t |-> "int", d |-> <<55>>], [t |-> "bool", v |-> TRUE], [t |-> "text", b |-> <<>>], [t |-> "text", b |-> <<97, 98>>],
         [t |-> "real", x |-> [c |-> "fin", neg |-> TRUE, m |-> <<51>>, k |-> -1]]}
Node == Leaf \cup {[t |-> "seq", v |-> s] : s \in {<<>>} \cup {<<a>> : a \in Leaf} \cup {<<a, b>> : a, b \in Leaf}}
Init == text = <<>> /\ prec = DefaultPrec /\ vals = <<>> /\ sep \in {0, 32, 44}
Add1 == Len(vals) < MaxLen /\ (\E n \in Node : vals' = Append(vals, n)) /\ UNCHANGED <<fmtvars, sep>>
Write == text = <<>> /\ Put([t |-> "join", v |-> vals, sep |-> sep]) /\ UNCHANGED <<vals, sep>>
Next == Add1 \/ Write
Spec == Init /\ [][Next]_vars
J(v) == Fmt([t |-> "join", v |-> v, sep |-> sep], prec)
S == IF sep = 0 THEN <<>> ELSE <<sep>>
\* cutting a join anywhere and gluing the parts with the separator gives the join
Cut == \A i \in 1..(Len(vals) - 1) : J(vals) = J(SubSeq(vals, 1, i)) \o S \o J(SubSeq(vals, i + 1, Len(vals)))
One == Len(vals) = 1 => J(vals) = Fmt(vals[1], prec)
EmptyJ == vals = <<>> => J(vals) = <<>>
RECURSIVE Total(_)
Total(v) == IF v = <<>> THEN 0 ELSE Len(Fmt(v[1], prec)) + Total(Tail(v))
Length == vals # <<>> => Len(J(vals)) = Total(vals) + (Len(vals) - 1) * Len(S)
Space == sep = 32 => Fmt([t |-> "seq", v |-> vals], prec) = J(vals)
\* fixed point text reads back within half a unit
Back == \A m \in {0, 1, 3, 5, 7, 999, 1000}, k \in {-12, -7, -1, 0, 4}, p \in 0..6 :
          LET x == [c |-> "fin", neg |-> FALSE, m |-> ToDigits(Nat1(m)), k |-> k]
              d == Dec(FixedPoint(x, p))
          IN /\ d.e = -p
             /\ Le(MulSmall(Diff(Mul(d.m, Pow2(12)), Mul(Mul(Nat1(m), Pow10(p)), Pow2(k + 12))), 2), Pow2(12))
ASSUME Back
============================================================================
