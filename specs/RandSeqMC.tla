---------------------------- MODULE RandSeqMC ----------------------------
(* The generators as algorithms over exactly uniform draws, one draw per    *)
(* step; weight is the product of the numbers of choices made so far.  At   *)
(* the end every result carries the same total probability: the number of   *)
(* draw sequences leading to it, each of probability 1/weight.              *)
EXTENDS RandSeq, TLC
CONSTANT N
VARIABLES f, n, acc, todo, weight, path
vars == <<f, n, acc, todo, weight, path>>
Init == /\ n \in 0..N /\ path = <<>> /\ weight = 1
        /\ \/ f = "shuffle" /\ acc = [i \in 1..n |-> i] /\ todo = n
           \/ f = "distinct" /\ acc = <<>> /\ todo = n
           \/ f = "bracket" /\ acc = <<>> /\ todo = 2 * n
           \/ f = "rotate" /\ n > 0 /\ acc = <<>> /\ todo = 1
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Take(k, c) == weight' = weight * k /\ path' = Append(path, c) /\ todo' = todo - 1 /\ UNCHANGED <<f, n>>
\* last position first, swapped with any position up to it
Shuffle == f = "shuffle" /\ todo > 1 /\ \E c \in 1..todo : acc' = Swap(acc, todo, c) /\ Take(todo, c)
\* sample from the values not taken yet; n of n+2 values
Rest == (1..(n + 2)) \ Range(acc)
Distinct == f = "distinct" /\ todo > 0 /\ \E c \in Rest : acc' = Append(acc, c) /\ Take(Cardinality(Rest), c)
\* one bracket: with r left and d open, choose among r*(d+1) tickets; those below (n-opened)*(d+2) open
Bracket == /\ f = "bracket" /\ todo > 0
           /\ LET d == Bal(acc, Len(acc))
                  opened == (Len(acc) + d) \div 2
                  tickets == todo * (d + 1)
              IN \E c \in 0..(tickets - 1) : acc' = Append(acc, IF c < (n - opened) * (d + 2) THEN OPEN ELSE CLOSE) /\ Take(tickets, c)
Rotate == f = "rotate" /\ todo = 1 /\ \E c \in 0..(n - 1) : acc' = [i \in 1..n |-> ((i - 1 + c) % n) + 1] /\ Take(n, c)
Next == Shuffle \/ Distinct \/ Bracket \/ Rotate
Spec == Init /\ [][Next]_vars
Over == (f = "shuffle" /\ todo <= 1) \/ todo = 0
ValidEnd == Over => CASE f = "shuffle" -> Valid("perm", <<n, 1>>, <<>>, acc, 0)
                      [] f = "distinct" -> Valid("distinct", <<n, 1, n + 3>>, <<>>, acc, 0)
                      [] f = "bracket" -> Valid("bracket", <<n>>, <<>>, acc, 0)
                      [] f = "rotate" -> \E a \in 0..(n - 1) : Valid("rotate", <<>>, [i \in 1..n |-> i], acc, a)
\* exact probabilities: with the tickets of all steps multiplied, each Dyck word has weight/Catalan draw sequences
RECURSIVE Ways(_, _)
Ways(s, i) == \* number of ticket sequences giving the word s, as a product
    IF i > Len(s) THEN <<1, 1>>
    ELSE LET p == SubSeq(s, 1, i - 1)  d == Bal(p, i - 1)  op == ((i - 1) + d) \div 2
             m == Len(s) \div 2
             t == (2 * m - (i - 1)) * (d + 1)  o == (m - op) * (d + 2)
             r == Ways(s, i + 1)
         IN <<r[1] * (IF s[i] = OPEN THEN o ELSE t - o), r[2] * t>>
BracketUniform == \A m \in 0..N : LET S == All("bracket", <<m>>, <<>>) IN
                    \A s \in S : LET w == Ways(s, 1) IN w[1] * Cardinality(S) = w[2]
Fact(k) == CHOOSE x \in {Cardinality(PermsOf(0, k))} : TRUE
Sizes == /\ \A m \in 0..N : Cardinality(PermsOf(0, m)) = (IF m <= 1 THEN 1 ELSE IF m = 2 THEN 2 ELSE IF m = 3 THEN 6 ELSE 24)
         /\ \A k \in 1..3, m \in 1..5 : Cardinality(All("part", <<m, k, 1>>, <<>>)) = (IF k = 1 THEN 1 ELSE IF k = 2 THEN m - 1 ELSE ((m - 1) * (m - 2)) \div 2)
ASSUME BracketUniform /\ Sizes
============================================================================
