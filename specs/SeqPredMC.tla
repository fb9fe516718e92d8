------------------------------ MODULE SeqPredMC ------------------------------
(* All sequences up to MaxLen over 0..MaxV (and a second one, for pairs).     *)
(* The one-pass permutation test with its table of seen values and the        *)
(* adjacent scans run as machines; in the end they agree with the definition  *)
(* and hold a genuine witness.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxLen, MaxV
Lt(a, b) == a < b
INSTANCE SeqPred WITH LtV <- Lt
VARIABLES s, off, k, seen, verdict, wit
vars == <<s, off, k, seen, verdict, wit>>
Init == s = <<>> /\ off = 0 /\ k = 0 /\ seen = {} /\ verdict = "grow" /\ wit = <<>>
Grow == verdict = "grow" /\ Len(s) < MaxLen /\ \E v \in 0..MaxV : s' = Append(s, v) /\ UNCHANGED <<off, k, seen, verdict, wit>>
Start == verdict = "grow" /\ verdict' \in {"perm", "adj"} /\ off' \in 0..2 /\ k' = 1 /\ seen' = {} /\ wit' = <<>> /\ UNCHANGED s
\* permutation of off .. off+n-1
PermStep == /\ verdict = "perm"
            /\ IF k > Len(s) THEN verdict' = "isperm" /\ UNCHANGED <<s, off, k, seen, wit>>
               ELSE LET x == s[k] IN
                    IF x < off \/ x - off >= Len(s) \/ x \in seen THEN verdict' = "noperm" /\ wit' = <<x>> /\ UNCHANGED <<s, off, k, seen>>
                    ELSE seen' = seen \cup {x} /\ k' = k + 1 /\ UNCHANGED <<s, off, verdict, wit>>
\* first adjacent pair where the second is not larger
AdjStep == /\ verdict = "adj"
           /\ IF k >= Len(s) THEN verdict' = "increasing" /\ UNCHANGED <<s, off, k, seen, wit>>
              ELSE IF ~(s[k] < s[k + 1]) THEN verdict' = "notincreasing" /\ wit' = <<k>> /\ UNCHANGED <<s, off, k, seen>>
              ELSE k' = k + 1 /\ UNCHANGED <<s, off, seen, verdict, wit>>
Next == Grow \/ Start \/ PermStep \/ AdjStep
Spec == Init /\ [][Next]_vars
Iota == [i \in 1..Len(s) |-> off + i - 1]
PermRight == /\ verdict = "isperm" => PermOf(s, Iota)
             /\ verdict = "noperm" => (~PermOf(s, Iota) /\ (wit[1] < off \/ wit[1] >= off + Len(s) \/ Repeated(s, wit[1])))
AdjRight == /\ verdict = "increasing" => ~AnyAdj(s, NonInc)
            /\ verdict = "notincreasing" => (AnyAdj(s, NonInc) /\ wit[1] = First(s, NonInc))
Sorted == SortSeq(s, LAMBDA a, b : a < b)
Laws == verdict = "grow" =>
    /\ Distinct(s) = ~AnyAdj(Sorted, Same)                              \* sorting brings equal values together
    /\ AnyAdj(Sorted, Same) => Repeated(s, Sorted[First(Sorted, Same) + 1])
    /\ PermOf(s, Sorted) /\ PermOf(s, Reverse(s))
    /\ AnyAdj(s, Dec) = ~(\A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1])
    /\ (~AnyAdj(s, NonInc)) = (~AnyAdj(s, Dec) /\ Distinct(s))
==============================================================================
