------------------------------- MODULE Chain -------------------------------
(* Whole programs: a generator writes a test, the test is passed on (or     *)
(* damaged on the way), an input validator reads it strictly and decides.   *)
(* The validator of each kind of test is a program over the reader of       *)
(* module Reader; Text is what a generator has to write for given values.   *)
EXTENDS Reader, GraphMath
I(lo, hi) == [k |-> "int", b |-> TRUE, lo |-> lo, hi |-> hi, con |-> ""]
II(lo, hi) == I(ZInt(lo), ZInt(hi))
LargeZ == [s |-> FALSE, m |-> Sub(P2Tab[63], <<1>>)]     \* 2^62 - 1
Word == [k |-> "str", b |-> TRUE, lo |-> ZInt(1), hi |-> ZInt(13), pat |-> "[a-z]+", con |-> ""]
Raw == [k |-> "str", b |-> FALSE, pat |-> "", con |-> ""]
\* a real with exactly six decimals in [-9, 9)
Six(s) == LET r == Single(Raw, s) IN
    IF r.o # "ok" THEN r
    ELSE LET t == r.v[Len(r.v)]
             x == Split(t)
             z == [s |-> x.neg /\ FromDigits(x.int \o x.frac) # <<>>, m |-> FromDigits(x.int \o x.frac)]
         IN IF StrictReal(t) /\ Len(x.frac) = 6 /\ ZLe(ZInt(-9000000), z) /\ ZLt(z, ZInt(9000000)) THEN r ELSE [r EXCEPT !.o = "dead"]
RECURSIVE SmallVal(_, _)
SmallVal(t, i) == IF i = 0 THEN 0 ELSE 10 * SmallVal(t, i - 1) + (t[i] - 48)
Val(t) == IF t[1] = MINUS THEN -SmallVal(Tail(t), Len(t) - 1) ELSE SmallVal(t, Len(t))
Fail(s) == [s EXCEPT !.o = "dead"]
End(s) == IF s.o = "ok" /\ s.p <= Len(input) THEN Fail(s) ELSE s
Demand(s, b) == IF s.o = "ok" /\ ~b THEN Fail(s) ELSE s
RECURSIVE Sixes(_, _), Edges(_, _, _), Pairs(_, _)
Sixes(n, s) == IF n = 0 \/ s.o # "ok" THEN s ELSE Sixes(n - 1, Sep(NL, Six(s)))
Pairs(n, s) == IF n = 0 \/ s.o # "ok" THEN s ELSE Pairs(n - 1, Sep(NL, Single(II(-20, 1), Sep(SP, Single(II(0, 50), s)))))
Edges(n, m, s) == IF m = 0 \/ s.o # "ok" THEN s ELSE Edges(n, m - 1, Sep(NL, Single(II(1, n + 1), Sep(SP, Single(II(1, n + 1), s)))))
\* facts about the edges read: n, m, then the ends
EdgeOf(v, i) == <<Val(v[1 + 2 * i]), Val(v[2 + 2 * i])>>
GraphOK(kind, v) ==
    LET n == Val(v[1])  m == Val(v[2])  V == 1..n
        E == {EdgeOf(v, i) : i \in 1..m}
        Same(i, j) == EdgeOf(v, i) = EdgeOf(v, j) \/ (kind # "dag" /\ EdgeOf(v, i) = <<EdgeOf(v, j)[2], EdgeOf(v, j)[1]>>)
        conn == Cardinality(Components(V, E)) <= 1
    IN /\ \A e \in E : e[1] # e[2]
       /\ \A i, j \in 1..m : i # j => ~Same(i, j)
       /\ CASE kind = "dag" -> Acyclic(V, E) [] kind = "simple" -> TRUE [] kind = "conn" -> conn [] OTHER -> conn /\ m = n - 1
\* the validator program: the final state; values are everything read except the count
Values(s) == IF s.v = <<>> THEN <<>> ELSE Tail(s.v)
Run(kind) ==
    LET a == Single(II(1, 1000), St)
        n == Val(a.v[1])
        b == Sep(NL, a)
    IN IF a.o # "ok" THEN a ELSE
       CASE kind = "ints" -> End(Sep(NL, Many(II(-100, 100), n, SP, b)))
         [] kind = "big" -> End(Sep(NL, Many(I(ZNeg(LargeZ), LargeZ), n, NL, b)))
         [] kind = "reals" -> End(Sixes(n, b))
         [] kind = "words" -> End(Sep(NL, Many(Word, n, NL, b)))
         [] kind = "pairs" -> End(Pairs(n, b))
         [] kind = "perm" -> LET r == End(Sep(NL, Many(II(1, n + 1), n, SP, b))) IN Demand(r, r.o = "ok" => {Val(r.v[i]) : i \in 2..(n + 1)} = 1..n)
         [] OTHER -> LET h == Sep(NL, Single(II(0, 1000), Sep(SP, a)))
                         r == IF h.o # "ok" THEN h ELSE End(Edges(n, Val(h.v[2]), h))
                     IN Demand(r, r.o = "ok" => GraphOK(kind, r.v))
Got(kind, s) == IF kind \in {"tree", "conn", "simple", "dag"} THEN s.v ELSE Values(s)
\* --- what has to be written: the values with the separators of the kind
Digits(n) == ToDigits(Nat1(n))
RECURSIVE Join(_, _, _)
Join(v, i, sep) == IF i > Len(v) THEN <<>> ELSE (IF i > 1 THEN <<sep>> ELSE <<>>) \o v[i] \o Join(v, i + 1, sep)
RECURSIVE Lines(_, _)
Lines(v, i) == IF i >= Len(v) THEN <<>> ELSE v[i] \o <<SP>> \o v[i + 1] \o <<NL>> \o Lines(v, i + 2)
Text(kind, v) ==
    CASE kind \in {"ints", "perm"} -> Digits(Len(v)) \o <<NL>> \o Join(v, 1, SP) \o <<NL>>
      [] kind \in {"big", "words", "reals"} -> Digits(Len(v)) \o <<NL>> \o Join(v, 1, NL) \o <<NL>>
      [] kind = "pairs" -> Digits(Len(v) \div 2) \o <<NL>> \o Lines(v, 1)
      [] OTHER -> Lines(v, 1)
\* --- the test on its way
VARIABLES kind, sent, whole     \* kind of test, values generated, arrived as written
chvars == <<rdvars, kind, sent, whole>>
Deliver(k, t) == /\ kind' = k /\ input' = t /\ pos' = 1 /\ strict' = TRUE /\ dead' = FALSE /\ cs' = TRUE /\ cons' = <<>> /\ order' = <<>>
Generate(k, v, t) == Deliver(k, t) /\ sent' = v /\ whole' = TRUE
Damage(t) == Deliver(kind, t) /\ UNCHANGED sent /\ whole' = FALSE
\* Eq: a value read and its text; Near: a value read and the one generated
Validate(code, got, Eq(_, _), Near(_, _)) ==
    LET r == Run(kind)  g == Got(kind, r) IN
    /\ UNCHANGED chvars
    /\ code = (IF r.o = "ok" THEN 42 ELSE 43)
    /\ r.o = "ok" => Len(got) = Len(g) /\ \A i \in DOMAIN g : Eq(got[i], g[i])
    /\ whole => r.o = "ok" /\ Len(g) = Len(sent) /\ \A i \in DOMAIN sent : Near(got[i], sent[i])
============================================================================
