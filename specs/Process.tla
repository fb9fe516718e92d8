------------------------------ MODULE Process ------------------------------
(* A validator, interactor or generator as a process: settings, streams and *)
(* output channels after init for each role and command line, and the life  *)
(* of the process up to its exit code.                                      *)
(*   phase   "boot" (before init), "run", "gone"                            *)
(*   set     settings [abs, rel (decimal texts), space, cs]                 *)
(*   streams name -> [input, p, strict, cs, code]   code: verdict on failure*)
(*   outs    channel -> bytes written to it on purpose                      *)
(*   ending  [code, how]: "live", "fail" (a read failed), "verdict", "ret"  *)
EXTENDS ConLog
VARIABLES role, argv, files, phase, set, streams, outs, ending, cons, order
pvars == <<role, argv, files, phase, set, streams, outs, ending, cons, order>>

AC == 42
WA == 43
FAIL == 1
SP == 32
NL == 10
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
IsGraph(c) == c \in 33..126
RECURSIVE SkipFrom(_, _)
SkipFrom(s, p) == IF p <= Len(s) /\ IsSpace(s[p]) THEN SkipFrom(s, p + 1) ELSE p
RECURSIVE RunEnd(_, _)
RunEnd(s, p) == IF p <= Len(s) /\ ~IsSpace(s[p]) THEN RunEnd(s, p + 1) ELSE p

\* texts of the flags as bytes
F_TOL == <<102,108,111,97,116,95,116,111,108,101,114,97,110,99,101>>
F_ABS == <<102,108,111,97,116,95,97,98,115,111,108,117,116,101,95,116,111,108,101,114,97,110,99,101>>
F_REL == <<102,108,111,97,116,95,114,101,108,97,116,105,118,101,95,116,111,108,101,114,97,110,99,101>>
F_SPACE == <<115,112,97,99,101,95,99,104,97,110,103,101,95,115,101,110,115,105,116,105,118,101>>
F_CASE == <<99,97,115,101,95,115,101,110,115,105,116,105,118,101>>
F_CON == <<45,45,99,111,110,115,116,114,97,105,110,116,115,95,102,105,108,101>>
EPS == <<48, 46, 48, 48, 48, 48, 48, 49>>          \* 0.000001
Has(f) == \E i \in DOMAIN argv : argv[i] = f
At1(f) == LET i == CHOOSE i \in DOMAIN argv : argv[i] = f /\ \A j \in DOMAIN argv : argv[j] = f => i <= j IN i
\* parameter of a flag or the default
ParamOr(f, d) == IF Has(f) /\ At1(f) < Len(argv) THEN argv[At1(f) + 1] ELSE d
Malformed(t) == ~RealToken(t)
Tols == [abs |-> ParamOr(F_ABS, ParamOr(F_TOL, set.abs)), rel |-> ParamOr(F_REL, ParamOr(F_TOL, set.rel))]
StrictRole == role \in {"input", "answer"}
InitSet == [abs |-> Tols.abs, rel |-> Tols.rel,
            space |-> StrictRole \/ set.space \/ Has(F_SPACE), cs |-> StrictRole \/ set.cs \/ Has(F_CASE)]
FlagsOk == \A f \in {F_TOL, F_ABS, F_REL} : Has(f) /\ At1(f) < Len(argv) => ~Malformed(argv[At1(f) + 1])

Stream(content, strict, cs, code) == [input |-> content, p |-> 1, strict |-> strict, cs |-> cs, code |-> code, open |-> TRUE]
StreamsOf(s) ==
    CASE role = "input"      -> [testIn |-> Stream(files.stdin, s.space, s.cs, WA)]
      [] role = "answer"     -> [testIn |-> Stream(files.in, FALSE, s.cs, FAIL), ans |-> Stream(files.stdin, s.space, s.cs, WA)]
      [] role = "output"     -> [testIn |-> Stream(files.in, FALSE, s.cs, FAIL), juryAns |-> Stream(files.ans, FALSE, s.cs, FAIL),
                                 teamAns |-> Stream(files.stdin, s.space, s.cs, WA)]
      [] role = "interactor" -> [testIn |-> Stream(files.in, FALSE, s.cs, FAIL), fromTeam |-> Stream(files.stdin, s.space, s.cs, WA)]
      [] role = "generator"  -> [none |-> Stream(<<>>, TRUE, TRUE, 0)]
\* where the judge message goes; each channel is one file or descriptor
Judge == IF role \in {"output", "interactor"} THEN "judge" ELSE IF role = "generator" THEN "err" ELSE "stdout"
Channel(o) == CASE o = "juryOut" -> Judge [] o = "juryErr" -> "err" [] o = "teamOut" -> "team" [] o \in {"toTeam", "testOut"} -> "stdout"
NoOut == [stdout |-> <<>>, err |-> <<>>, judge |-> <<>>, team |-> <<>>]

\* ------------------------------------------------------------- before init
Assign(k, v) == IF phase = "boot" THEN set' = [set EXCEPT ![k] = v] /\ UNCHANGED <<role, argv, files, phase, streams, outs, ending, cons, order>>
                ELSE UNCHANGED pvars
\* --- init.  ok: parameters present and well formed
NeedArgs == CASE role = "answer" -> 2 [] role \in {"output", "interactor"} -> 4 [] OTHER -> 0
FilesOk == /\ (role \in {"answer", "output", "interactor"} => files.hasIn)
           /\ (role = "output" => files.hasAns) /\ (role \in {"output", "interactor"} => files.hasDir)
InitOk == phase = "boot" /\ FlagsOk /\ Len(argv) >= NeedArgs /\ FilesOk
Start == /\ InitOk /\ phase' = "run" /\ set' = InitSet /\ streams' = StreamsOf(InitSet)
         /\ UNCHANGED <<role, argv, files, outs, ending, cons, order>>
\* a second init, or init with bad arguments, is refused (the program does not continue in these traces)
Quit(how) == /\ ending.how = "live" /\ phase' = "gone" /\ ending' = how /\ UNCHANGED <<role, argv, files, set, streams, outs, cons, order>>
\* a program that never called init: reads and multipass are refused, and it ends without a verdict or success
Unready == phase = "boot" /\ ending.how = "live"
Lost == Unready /\ Quit([how |-> "uninit"])
NoCode == {0, AC, WA}
\* -------------------------------------------------------------- operations
Live == phase = "run" /\ ending.how = "live"
AtTok(s) == IF s.strict THEN s.p ELSE SkipFrom(s.input, s.p)
FoldB(c) == IF c \in 65..90 THEN c + 32 ELSE c
FoldS(cs, t) == IF cs THEN t ELSE [i \in DOMAIN t |-> FoldB(t[i])]
TokOk(s) == AtTok(s) <= Len(s.input) /\ (s.strict => IsGraph(s.input[s.p]))
Tok(s) == FoldS(s.cs, SubSeq(s.input, AtTok(s), RunEnd(s.input, AtTok(s)) - 1))
\* result of a read: [ok, p]
Yes(p) == [ok |-> TRUE, p |-> p]
No == [ok |-> FALSE, p |-> 0]
\* decimals with at most 12 places as integers
Pico(t) == LET d == Dec(t) IN Z(d.neg, Mul(d.m, Pow10(d.e + 12)))
PIn(t, lo, hi) == ~ZLt(Pico(t), Pico(lo)) /\ ZLt(Pico(t), Pico(hi))
Near(g, x) == LET d == ZAbs(ZSub(Pico(g), Pico(x))).m IN
              \/ Le(d, Pico(set.abs).m)
              \/ (Pico(x).m # <<>> /\ Le(Mul(d, Pow10(12)), Mul(Pico(set.rel).m, Pico(x).m)))
RECURSIVE IntList(_, _, _)
\* n integers in [-9, 100) separated by one space each
IntList(s, n, first) ==
    IF n = 0 THEN [ok |-> TRUE, p |-> s.p, v |-> <<>>]
    ELSE LET s1 == IF first \/ ~s.strict THEN s ELSE [s EXCEPT !.p = @ + 1]
             sepOk == first \/ ~s.strict \/ (s.p <= Len(s.input) /\ s.input[s.p] = SP)
         IN IF sepOk /\ TokOk(s1) /\ IntToken(Tok(s1)) /\ InRange(ZFrom(Tok(s1)), ZInt(-9), ZInt(100))
            THEN LET r == IntList([s1 EXCEPT !.p = RunEnd(s1.input, AtTok(s1))], n - 1, FALSE)
                 IN IF r.ok THEN [r EXCEPT !.v = <<Tok(s1)>> \o @] ELSE r
            ELSE [ok |-> FALSE, p |-> 0, v |-> <<>>]
ReadRes(s, op, a) ==
    LET end == AtTok(s) > Len(s.input)
        sep(c) == IF s.strict THEN (IF ~end /\ s.input[s.p] = c THEN Yes(s.p + 1) ELSE No) ELSE Yes(s.p)
        tok(good) == IF TokOk(s) /\ good THEN Yes(RunEnd(s.input, AtTok(s))) ELSE No
    IN CASE op = "tok" -> tok(TRUE)
         [] op = "sp" -> sep(SP) [] op = "nl" -> sep(NL)
         [] op = "eof" -> IF end THEN Yes(s.p) ELSE No
         [] op = "neof" -> IF end THEN No ELSE Yes(s.p)
         [] op = "int" -> tok(TokOk(s) /\ IntToken(Tok(s)))
         [] op = "ib" -> tok(TokOk(s) /\ IntToken(Tok(s)) /\ InRange(ZFrom(Tok(s)), ZFrom(a[1]), ZFrom(a[2])))
         [] op = "xs" -> tok(TokOk(s) /\ Tok(s) = FoldS(s.cs, a[1]))
         [] op = "sl" -> tok(TokOk(s) /\ InRange(ZInt(Len(Tok(s))), ZFrom(a[1]), ZFrom(a[2])))
         [] op = "pat" -> tok(TokOk(s) /\ \A i \in DOMAIN Tok(s) : Tok(s)[i] \in 97..99 \cup 48..57)
         [] op = "rs" -> tok(TokOk(s) /\ StrictReal(Tok(s)) /\ Decimals(Tok(s)) < 3 /\ PIn(Tok(s), a[1], a[2]))
         [] op = "ints" -> LET r == IntList(s, a[1][1] - 48, TRUE) IN IF r.ok THEN Yes(r.p) ELSE No
         [] op = "xr" -> tok(TokOk(s) /\ RealToken(Tok(s)) /\ Near(Tok(s), a[1]))
ReadOp(n, op, a) == /\ Live /\ n \in DOMAIN streams
    /\ LET r == ReadRes(streams[n], op, a) IN
       IF r.ok THEN streams' = [streams EXCEPT ![n].p = r.p] /\ UNCHANGED <<role, argv, files, phase, set, outs, ending, cons, order>>
       ELSE phase' = "gone" /\ ending' = [how |-> "fail", code |-> streams[n].code]
            /\ UNCHANGED <<role, argv, files, set, streams, outs, cons, order>>
Write(o, b) == /\ phase = "run" /\ outs' = [outs EXCEPT ![Channel(o)] = @ \o b]
               /\ UNCHANGED <<role, argv, files, phase, set, streams, ending, cons, order>>
LogOp(n, lo, hi, v) == /\ Live
    /\ cons' = [cons EXCEPT ![n] = Logged(@, "int", ZFrom(lo), ZFrom(hi), ZFrom(v))]
    /\ order' = (IF cons[n].ty = "none" THEN Append(order, n) ELSE order)
    /\ UNCHANGED <<role, argv, files, phase, set, streams, outs, ending>>
Verdict(code, ch) == /\ phase' = "gone" /\ ending' = [how |-> "verdict", code |-> code, ch |-> ch]
                     /\ UNCHANGED <<role, argv, files, set, streams, outs, cons, order>>
CodeOf(v) == CASE v = "AC" -> AC [] v \in {"WA", "PE"} -> WA [] v = "FAIL" -> FAIL
HasLog == role \in {"input", "answer", "output"} /\ Has(F_CON)
============================================================================
