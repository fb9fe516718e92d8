------------------------------ MODULE ChainMC ------------------------------
(* Every text over a small alphabet: what a validator accepts is exactly    *)
(* what a generator writes for the values read (so no two texts carry the   *)
(* same values and no damage goes unnoticed unless it makes another test).  *)
EXTENDS Chain
CONSTANTS Alphabet, MaxLen, Kinds
Init == /\ kind \in Kinds /\ input = <<>> /\ pos = 1 /\ strict = TRUE /\ dead = FALSE /\ cs = TRUE /\ cons = <<>> /\ order = <<>> /\ sent = <<>> /\ whole = FALSE
Next == Len(input) < MaxLen /\ \E c \in Alphabet : input' = Append(input, c) /\ UNCHANGED <<kind, pos, strict, dead, cs, cons, order, sent, whole>>
Spec == Init /\ [][Next]_chvars
R == Run(kind)
OneText == R.o = "ok" => Text(kind, Got(kind, R)) = input
\* and what is written for what was read is read again
Again == R.o = "ok" => R.p = Len(input) + 1 /\ R.v # <<>>
============================================================================
