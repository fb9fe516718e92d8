------------------------------ MODULE Reader ------------------------------
(* The typed reader: tokens of InputProtocol interpreted as strings, integers *)
(* or reals, single or in bulk, with bounds, patterns, expectations and the  *)
(* constraint log.  A single read is a function on reader states; a bulk     *)
(* read is the composition of single reads and separators.                   *)
EXTENDS InputProtocol, ConLog
VARIABLES cs, cons, order     \* case sensitive; constraint log: name -> entry, names in order of first mention
rdvars == <<input, pos, strict, dead, cs, cons, order>>

\* --- folding and patterns
FoldByte(c) == IF c \in 65..90 THEN c + 32 ELSE c
FoldSeq(t)  == [i \in DOMAIN t |-> FoldByte(t[i])]
Fold(t)     == IF cs THEN t ELSE FoldSeq(t)
LowerC(c)   == c \in 97..122
RECURSIVE StripAB(_)
StripAB(t)  == IF Len(t) >= 2 /\ t[1] = 97 /\ t[2] = 98 THEN StripAB(SubSeq(t, 3, Len(t))) ELSE t
Matches(p, t) ==
    CASE p = "[a-z]+"       -> t # <<>> /\ \A i \in DOMAIN t : LowerC(t[i])
      [] p = "[A-Za-z0-9]*" -> \A i \in DOMAIN t : LowerC(t[i]) \/ t[i] \in 65..90 \/ Digit(t[i])
      [] p = "a|bc"         -> t \in {<<97>>, <<98, 99>>}
      [] p = "(ab)*c"       -> StripAB(t) = <<99>>
      [] p = "[01]{2,3}"    -> Len(t) \in 2..3 /\ \A i \in DOMAIN t : t[i] \in {48, 49}
      [] p = ".*"           -> TRUE

\* --- single reads.  A reader state: p position, c constraints, o "ok" | "dead" | "refused", v values
St == [p |-> pos, c |-> cons, o |-> "ok", v |-> <<>>]
\* what the element read returns and logs: [ok, ty, lo, hi, val]
ElemOK(k, t) ==
    LET len == ZInt(Len(t)) IN
    CASE k.k = "str" -> (k.b => InRange(len, k.lo, k.hi)) /\ (k.pat # "" => Matches(k.pat, t))
      [] k.k = "int" -> IntToken(t) /\ (k.b => InRange(ZFrom(t), k.lo, k.hi))
      [] k.k = "real" -> RealToken(t) /\ (k.b => LET v == Thousandths(t) IN
             \* integral bounds and three decimals: only the bounds themselves are within the tolerance
             ZLe(ZMul(k.lo, ZInt(1000)), v) /\ ZLe(v, ZMul(k.hi, ZInt(1000))))
      [] k.k = "rs"  -> StrictReal(t) /\ Decimals(t) >= k.dlo /\ Decimals(t) < k.dhi /\ LET v == Thousandths(t) IN
             ZLe(ZMul(k.lo, ZInt(1000)), v) /\ ZLt(v, ZMul(k.hi, ZInt(1000)))
LogTy(k) == IF k.k \in {"real", "rs"} THEN "real" ELSE k.k
LogVal(k, t) == CASE k.k = "str" -> ZInt(Len(t)) [] k.k = "int" -> ZFrom(t) [] OTHER -> Thousandths(t)
LogLim(k, x) == IF LogTy(k) = "real" THEN ZMul(x, ZInt(1000)) ELSE x

Single(k, s) ==
    IF s.o # "ok" THEN s ELSE
    LET b == IF strict THEN s.p ELSE SkipFrom(input, s.p)
        e == RunEnd(input, b)
        t == Fold(SubSeq(input, b, e - 1))
    IN IF b > Len(input) \/ (strict /\ ~IsGraph(input[b])) \/ ~ElemOK(k, t) THEN [s EXCEPT !.o = "dead"]
       ELSE IF k.con = "" THEN [s EXCEPT !.p = e, !.v = Append(@, t)]
       ELSE IF ~TypeOk(s.c[k.con], LogTy(k)) THEN [s EXCEPT !.o = "refused", !.p = e]
       ELSE [s EXCEPT !.p = e, !.v = Append(@, t),
                      !.c[k.con] = Logged(@, LogTy(k), LogLim(k, k.lo), LogLim(k, k.hi), LogVal(k, t))]
Sep(c, s) ==
    IF s.o # "ok" \/ ~strict THEN s
    ELSE IF s.p <= Len(input) /\ input[s.p] = c THEN [s EXCEPT !.p = @ + 1] ELSE [s EXCEPT !.o = "dead"]
RECURSIVE Many(_, _, _, _)
Many(k, n, c, s) == IF n = 0 THEN s ELSE IF n = 1 THEN Single(k, s) ELSE Many(k, n - 1, c, Sep(c, Single(k, s)))
Bulk(k, n, c, s) == IF c \notin {SP, NL} THEN [s EXCEPT !.o = "refused"] ELSE Many(k, n, c, s)
\* expectations
IsTok(t) == t # <<>> /\ \A i \in DOMAIN t : ~IsSpace(t[i])
Expect(x, s) == \* x: [t, val]
    IF x.t = "str" /\ ~IsTok(x.val) THEN [s EXCEPT !.o = "refused"]
    ELSE LET k == [k |-> IF x.t = "str" THEN "str" ELSE x.t, b |-> FALSE, pat |-> "", con |-> ""]
             r == Single(k, s)
             t == r.v[Len(r.v)]
         IN IF r.o # "ok" THEN r
            ELSE IF (CASE x.t = "str" -> t = Fold(x.val) [] x.t = "int" -> t = x.val
                       [] x.t = "real" -> Thousandths(t) = Thousandths(x.val)) THEN r ELSE [r EXCEPT !.o = "dead"]
Apply(s) == /\ ~dead /\ pos' = s.p /\ cons' = s.c /\ dead' = (s.o # "ok") /\ UNCHANGED <<input, strict, cs, order>>
===========================================================================
