--------------------------- MODULE MultipassTrace ---------------------------
EXTENDS Multipass, TraceKit
vars == <<pvars, mpvars, l>>
TInit == /\ TKInit /\ role = "output" /\ argv = <<>> /\ files = <<>> /\ phase = "gone" /\ set = <<>> /\ streams = <<>> /\ outs = NoOut
         /\ ending = [how |-> "none"] /\ cons = <<>> /\ order = <<>>
         /\ runs = 0 /\ mp = FALSE /\ saved = <<>> /\ prev = Stream(<<>>, FALSE, TRUE, FAIL) /\ nst = <<>> /\ buf = <<>> /\ file = Absent
\* a new feedback directory
New == /\ Is("new") /\ runs' = 0 /\ mp' = FALSE /\ saved' = <<>> /\ prev' = Stream(<<>>, FALSE, TRUE, FAIL) /\ nst' = <<>> /\ buf' = <<>> /\ file' = Absent
       /\ phase' = "gone" /\ ending' = [how |-> "none"] /\ UNCHANGED <<role, argv, files, set, streams, outs, cons, order>>
Run == /\ Is("run") /\ Launch /\ role' = Ev.role /\ argv' = Ev.argv /\ files' = Ev.files /\ phase' = "boot"
       /\ set' = [abs |-> EPS, rel |-> EPS, space |-> FALSE, cs |-> FALSE] /\ streams' = <<>> /\ outs' = NoOut /\ ending' = [how |-> "live"] /\ UNCHANGED <<cons, order>>
CleanEv == Is("clean") /\ Clean /\ UNCHANGED pvars
InitEv == Is("init") /\ Ev.done /\ ~Ev.ref /\ Start /\ UNCHANGED mpvars
MpInit == /\ Is("mpinit") /\ Ev.done
          /\ \/ phase = "boot" /\ Ev.ref /\ UNCHANGED <<pvars, mpvars>>
             \/ ~Ev.ref /\ Begin /\ Ev.res = runs /\ UNCHANGED pvars
ReadPrev == /\ Is("r") /\ Ev.s = "prevstate" /\ Live
            /\ IF HasPrev THEN LET r == ReadRes(prev, Ev.op, Ev.a) IN
                 /\ ~Ev.ref /\ Ev.done = r.ok /\ (r.ok /\ Ev.op \in {"tok", "int"} => Ev.res = Tok(prev))
                 /\ PrevRead(Ev.op, Ev.a) /\ UNCHANGED <<runs, mp, saved, nst, buf, file>>
                 /\ (IF r.ok THEN UNCHANGED pvars ELSE Quit([how |-> "fail", code |-> FAIL]))
               ELSE Ev.done /\ (Ev.ref \/ Ev.op \in {"sp", "nl"}) /\ UNCHANGED <<pvars, mpvars>>
ReadOther == /\ Is("r") /\ Ev.s # "prevstate" /\ ~Ev.ref
             /\ LET r == ReadRes(streams[Ev.s], Ev.op, Ev.a) IN Ev.done = r.ok /\ (r.ok /\ Ev.op = "tok" => Ev.res = Tok(streams[Ev.s]))
             /\ ReadOp(Ev.s, Ev.op, Ev.a) /\ UNCHANGED mpvars
WriteEv == /\ Is("w") /\ Ev.done /\ ~Ev.ref
           /\ IF Ev.s = "nextstate" THEN SaveState(Ev.b) /\ UNCHANGED pvars
              ELSE IF Ev.s = "nextpass" THEN SavePass(Ev.b) /\ UNCHANGED pvars
              ELSE Write(Ev.s, Ev.b) /\ UNCHANGED mpvars
NextEv == /\ Is("next") /\ ~Ev.done /\ Another
          /\ Verdict(AC, IF Ev.o = "NEXTs" THEN "juryOut" ELSE "none")
VerdictEv == Is("v") /\ Live /\ ~Ev.done /\ Verdict(CodeOf(Ev.v), Ev.ch) /\ UNCHANGED mpvars
Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Want(c) == IF ending.how = "verdict" /\ ending.ch # "none" /\ Channel(ending.ch) = c THEN Append(outs[c], NL) ELSE outs[c]
ExitEv == /\ Is("exit") /\ ending.how # "live" /\ Ev.code = ending.code
          /\ \A c \in DOMAIN outs : IF ending.how = "fail" /\ c = Judge THEN Prefix(outs[c], Ev.outs[c]) ELSE Ev.outs[c] = Want(c)
          /\ Ev.has = file.has /\ Ev.next = file.b
          /\ ending' = [how |-> "none"] /\ UNCHANGED <<role, argv, files, phase, set, streams, outs, cons, order, mpvars>>
Next == New \/ Run \/ CleanEv \/ InitEv \/ MpInit \/ ReadPrev \/ ReadOther \/ WriteEv \/ NextEv \/ VerdictEv \/ ExitEv
TraceSpec == TInit /\ [][Next]_vars
============================================================================
