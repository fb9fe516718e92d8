----------------------------- MODULE ArgParser -----------------------------
(* The command line: a scanner walks over the arguments and hands every     *)
(* non-command argument to the command seen last.  The declarative reading  *)
(* (Segment, After) is what users rely on; the model shows they agree.      *)
EXTENDS RealNum
IsCmd(a) == Len(a) > 2 /\ a[1] = 45 /\ a[2] = 45
White == {9, 10, 11, 12, 13, 32}
IsName(a) == a # <<>> /\ \A i \in DOMAIN a : a[i] \notin White
\* declarative meaning of an argument vector
Dup(v) == \E i, j \in DOMAIN v : i < j /\ IsCmd(v[i]) /\ v[i] = v[j]
RECURSIVE TakeArgs(_, _)
TakeArgs(v, i) == IF i > Len(v) \/ IsCmd(v[i]) THEN <<>> ELSE <<v[i]>> \o TakeArgs(v, i + 1)
Pos(v, a) == {i \in DOMAIN v : v[i] = a}
First(v, a) == CHOOSE i \in Pos(v, a) : \A j \in Pos(v, a) : i <= j
\* lookups: [found, args]
Lookup(v, name) == IF IsCmd(name) /\ Pos(v, name) # {} THEN [found |-> TRUE, args |-> TakeArgs(v, First(v, name) + 1)]
                   ELSE [found |-> FALSE, args |-> <<>>]
Raw(v, name) == IF Pos(v, name) # {} THEN [found |-> TRUE, args |-> SubSeq(v, First(v, name) + 1, Len(v))]
                ELSE [found |-> FALSE, args |-> <<>>]
NoPlus(a) == IF a # <<>> /\ a[1] = PLUS THEN Tail(a) ELSE a
\* numbers on the command line: an optional sign, then digits
ArgInt(a) == LET d == NoSign(a) IN d # <<>> /\ AllDigits(d) /\ Fits64(ZFrom(NoPlus(a)))
============================================================================
