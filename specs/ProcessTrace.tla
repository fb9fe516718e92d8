---------------------------- MODULE ProcessTrace ----------------------------
EXTENDS Process, TraceKit
vars == <<pvars, l>>
ConNames == {"x", "y", "z"}
Boot == /\ phase' = "boot" /\ set' = [abs |-> EPS, rel |-> EPS, space |-> FALSE, cs |-> FALSE] /\ streams' = <<>> /\ outs' = NoOut
        /\ ending' = [how |-> "live"] /\ cons' = [n \in ConNames |-> None] /\ order' = <<>>
TInit == /\ TKInit /\ role = "input" /\ argv = <<>> /\ files = <<>> /\ phase = "gone" /\ set = [abs |-> EPS, rel |-> EPS, space |-> FALSE, cs |-> FALSE]
         /\ streams = <<>> /\ outs = NoOut /\ ending = [how |-> "none"] /\ cons = [n \in ConNames |-> None] /\ order = <<>>
New == Is("new") /\ Boot /\ role' = Ev.role /\ argv' = Ev.argv /\ files' = Ev.files
\* every operation: ev.done says that the program was still running after it, ev.ref that it threw
Runs == Ev.done /\ ~Ev.ref
SetEv == /\ Is("set") /\ Ev.done /\ Ev.ref = (phase # "boot")
         /\ Assign(Ev.k, IF Ev.k \in {"abs", "rel"} THEN Ev.v ELSE Ev.v = <<49>>)
InitEv == /\ Is("init") /\ Ev.done
          /\ \/ InitOk /\ ~Ev.ref /\ Start
             \/ phase = "boot" /\ ~InitOk /\ Ev.ref /\ Quit([how |-> "refused", code |-> 70])
             \/ phase = "run" /\ Ev.ref /\ UNCHANGED pvars
SettingsEv == /\ Is("settings") /\ Live /\ Runs /\ Rounded(Ev.res.abs, set.abs, 62) /\ Rounded(Ev.res.rel, set.rel, 62)
              /\ Ev.res.space = set.space /\ Ev.res.cs = set.cs /\ UNCHANGED pvars
ReadEv == /\ Is("r") /\ ~Ev.ref /\ Live
          /\ LET s == streams[Ev.s]
                 r == ReadRes(s, Ev.op, Ev.a)
             IN /\ Ev.done = r.ok
                /\ r.ok /\ Ev.op \in {"tok", "int", "ib", "sl", "pat"} => Ev.res = Tok(s)
                /\ r.ok /\ Ev.op = "ints" => Ev.res = IntList(s, Ev.a[1][1] - 48, TRUE).v
          /\ ReadOp(Ev.s, Ev.op, Ev.a)
WriteEv == Is("w") /\ Live /\ Runs /\ Write(Ev.s, Ev.b)
VerdictEv == Is("v") /\ Live /\ ~Ev.done /\ Verdict(CodeOf(Ev.v), Ev.ch)
LogEv == Is("con") /\ Runs /\ LogOp(Ev.n, Ev.lo, Ev.hi, Ev.v)
RetEv == Is("ret") /\ Runs /\ ((Live /\ Quit([how |-> "ret", code |-> Ev.code])) \/ Lost)
EarlyEv == /\ Unready
           /\ \/ Is("r") /\ Ev.done /\ (Ev.ref \/ Ev.op \in {"sp", "nl"}) /\ UNCHANGED pvars     \* separators: either
              \/ Is("mpinit") /\ Ev.done /\ Ev.ref /\ UNCHANGED pvars
              \/ Is("v") /\ ~Ev.done /\ Lost
PCmp(g, x) == ZCmp(Pico(g), Pico(x))
FloatEv == /\ Is("f") /\ Live /\ Runs /\ UNCHANGED pvars
           /\ Ev.res = (Near(Ev.g, Ev.x) \/ (Ev.op = "fle" /\ PCmp(Ev.g, Ev.x) < 0) \/ (Ev.op = "fge" /\ PCmp(Ev.g, Ev.x) > 0))
SeqEv == /\ Is("seq") /\ Live /\ Runs /\ UNCHANGED pvars /\ Ev.res = (FoldS(set.cs, Ev.g) = FoldS(set.cs, Ev.x))
\* patterns made with the case setting: the recorded pattern is a plain word, or a word
\* followed by a plus sign, which is a plain character in the basic grammar only
RxMatch(gram, g, x) ==
    IF g[Len(g)] = 43 /\ gram # "basic"
    THEN LET n == Len(g) - 1 IN
         Len(x) >= n /\ SubSeq(x, 1, n) = SubSeq(g, 1, n) /\ \A i \in n..Len(x) : x[i] = g[n]
    ELSE g = x
RxEv == /\ Is("rx") /\ Live /\ Runs /\ UNCHANGED pvars /\ Ev.res = RxMatch(Ev.gram, FoldS(set.cs, Ev.g), FoldS(set.cs, Ev.x))
Used == SelectSeq(order, LAMBDA n : cons[n].ty # "none")
ConOK == IF ~HasLog \/ ending.how \in {"refused", "uninit"} THEN ~Ev.hasCon
         ELSE Ev.hasCon /\ Len(Ev.con) = Len(Used) /\ \A i \in DOMAIN Used : LineOK(cons[Used[i]], Used[i], Ev.con[i])
Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Want(c) == IF ending.how = "verdict" /\ ending.ch # "none" /\ Channel(ending.ch) = c THEN Append(outs[c], NL) ELSE outs[c]
ExitEv == /\ Is("exit") /\ ending.how # "live" /\ (IF ending.how = "uninit" THEN Ev.code \notin NoCode ELSE Ev.code = ending.code)
          /\ ending.how # "uninit" => \A c \in DOMAIN outs : IF ending.how = "fail" /\ c = Judge THEN Prefix(outs[c], Ev.outs[c]) ELSE Ev.outs[c] = Want(c)
          /\ ConOK /\ ending' = [how |-> "none"] /\ UNCHANGED <<role, argv, files, phase, set, streams, outs, cons, order>>
Next == EarlyEv \/ New \/ SetEv \/ InitEv \/ SettingsEv \/ ReadEv \/ WriteEv \/ VerdictEv \/ LogEv \/ RetEv \/ FloatEv \/ SeqEv \/ RxEv \/ ExitEv
TraceSpec == TInit /\ [][Next]_vars
============================================================================
