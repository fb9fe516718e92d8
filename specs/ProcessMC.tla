----------------------------- MODULE ProcessMC -----------------------------
EXTENDS Process, TLC, Json
CONSTANTS Emit, MaxOps
VARIABLES cfg, steps
vars == <<pvars, cfg, steps>>
B == BOOLEAN
Roles == {"input", "answer", "output", "interactor", "generator"}
V1 == <<48, 46, 50, 53>>            \* 0.25
V2 == <<48, 46, 48, 49>>            \* 0.01
V3 == <<48, 46, 48, 48, 49>>        \* 0.001
V4 == <<50>>                        \* 2
Cfgs == [role : Roles, tol : B, abs : B, rel : B, sp : B, cs : B, pabs : B, prel : B, psp : B, pcs : B]
Opt(b, f, v) == IF b THEN <<f, v>> ELSE <<>>
ArgvOf(c) == <<<<112>>, <<105>>, <<97>>, <<102>>>> \o Opt(c.rel, F_REL, V3) \o Opt(c.tol, F_TOL, V1) \o Opt(c.abs, F_ABS, V2)
             \o (IF c.sp THEN <<F_SPACE>> ELSE <<>>) \o (IF c.cs THEN <<F_CASE>> ELSE <<>>)
Content == <<65, 32, 98>>
Init == /\ cfg \in Cfgs /\ role = cfg.role /\ argv = ArgvOf(cfg)
        /\ files = [stdin |-> Content, in |-> <<9>> \o Content, ans |-> <<97>>, hasIn |-> TRUE, hasAns |-> TRUE, hasDir |-> TRUE]
        /\ phase = "boot" /\ set = [abs |-> EPS, rel |-> EPS, space |-> FALSE, cs |-> FALSE]
        /\ streams = <<>> /\ outs = NoOut /\ ending = [how |-> "live"] /\ cons = [x |-> None] /\ order = <<>> /\ steps = 0
        /\ Emit => PrintT("@@" \o ToJson(cfg))
Tick == steps' = steps + 1 /\ UNCHANGED cfg
Pre == /\ phase = "boot" /\ Tick
       /\ \/ cfg.pabs /\ set.abs = EPS /\ Assign("abs", V4)
          \/ cfg.prel /\ set.rel = EPS /\ Assign("rel", V4)
          \/ cfg.psp /\ ~set.space /\ Assign("space", TRUE)
          \/ cfg.pcs /\ ~set.cs /\ Assign("cs", TRUE)
PreDone == (cfg.pabs => set.abs = V4) /\ (cfg.prel => set.rel = V4) /\ (cfg.psp => set.space) /\ (cfg.pcs => set.cs)
Begin == PreDone /\ Start /\ UNCHANGED <<cfg, steps>>
Late == phase = "run" /\ steps < MaxOps /\ Tick /\ (Assign("abs", V1) \/ Assign("cs", FALSE))
Reads == /\ steps < MaxOps /\ Tick /\ \E n \in DOMAIN streams \ {"none"} :
            \/ ReadOp(n, "tok", <<>>) \/ ReadOp(n, "sp", <<>>) \/ ReadOp(n, "eof", <<>>) \/ ReadOp(n, "xs", <<<<97>>>>)
Writes == steps < MaxOps /\ Tick /\ (Write("juryOut", <<33>>) \/ (role \in {"output", "interactor"} /\ Write("teamOut", <<34>>)))
Verd == Live /\ Tick /\ \E v \in {"AC", "WA", "FAIL"} : Verdict(CodeOf(v), "none")
Forgot == Lost /\ UNCHANGED <<cfg, steps>>
Next == Forgot \/ Pre \/ Begin \/ Late \/ Reads \/ Writes \/ Verd
Spec == Init /\ [][Next]_vars
\* settings in force, stated without the command line
Want == [abs |-> IF cfg.abs THEN V2 ELSE IF cfg.tol THEN V1 ELSE IF cfg.pabs THEN V4 ELSE EPS,
         rel |-> IF cfg.rel THEN V3 ELSE IF cfg.tol THEN V1 ELSE IF cfg.prel THEN V4 ELSE EPS,
         space |-> role \in {"input", "answer"} \/ cfg.sp \/ cfg.psp,
         cs |-> role \in {"input", "answer"} \/ cfg.cs \/ cfg.pcs]
Inited == phase # "boot" /\ ending.how # "uninit"
InForce == Inited => set = Want
Reach == Inited => \A n \in DOMAIN streams : n # "none" =>
            /\ streams[n].cs = set.cs
            /\ streams[n].strict = ((n \in {"ans", "teamAns", "fromTeam"} \/ role = "input") /\ set.space)
            /\ streams[n].code = IF n \in {"ans", "teamAns", "fromTeam"} \/ role = "input" THEN WA ELSE FAIL
\* accepting is explicit; failing reads end with the code of their stream
Explicit == /\ ending.how = "live" <=> phase # "gone"
            /\ ending.how = "uninit" => streams = <<>>
            /\ ending.how = "fail" => ending.code \in {WA, FAIL} /\ (ending.code = FAIL => role \in {"answer", "output", "interactor"})
Frozen == [][phase # "boot" => set' = set /\ (phase = "gone" => UNCHANGED pvars)]_vars
\* a lenient stream never fails on whitespace; case-insensitive tokens agree after folding
Separate == (Judge = "judge" => outs.stdout = <<>> /\ outs.err = <<>>) /\ (\A i \in DOMAIN outs.team : outs.team[i] = 34)
            /\ (\A i \in DOMAIN outs[Judge] : outs[Judge][i] = 33)
============================================================================
