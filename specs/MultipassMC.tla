---------------------------- MODULE MultipassMC ----------------------------
(* Runs with a small alphabet, together with the two alternating files the  *)
(* implementation keeps: the file read is always the one written before.    *)
EXTENDS Multipass, TLC, Json
CONSTANTS MaxRuns, Emit
VARIABLES f, cnt, h, asked
vars == <<pvars, mpvars, f, cnt, h, asked>>
Init == /\ role = "output" /\ argv = <<>> /\ files = <<>> /\ phase = "run" /\ set = <<>> /\ streams = <<>> /\ outs = NoOut /\ ending = [how |-> "live"]
        /\ cons = <<>> /\ order = <<>> /\ runs = 0 /\ mp = FALSE /\ saved = <<>> /\ prev = Stream(<<>>, FALSE, TRUE, FAIL) /\ nst = <<>> /\ buf = <<>>
        /\ file = Absent /\ f = [i \in {0, 1} |-> Absent] /\ cnt = -1 /\ h = <<>> /\ asked = FALSE
A == <<97, 32>>
Log(x) == h' = Append(h, x)
\* one run in four stages: begin, maybe read, maybe save, end
Start1 == /\ Begin /\ Log("begin") /\ cnt' = cnt + 1 /\ f' = [f EXCEPT ![(cnt + 1) % 2] = [has |-> TRUE, b |-> <<>>]]
          /\ asked' = FALSE /\ UNCHANGED pvars
Read1 == /\ HasPrev /\ h[Len(h)] = "begin" /\ PrevRead("tok", <<>>) /\ ReadRes(prev, "tok", <<>>).ok /\ Log("tok")
         /\ UNCHANGED <<pvars, runs, mp, saved, nst, buf, file, f, cnt, asked>>
Save1(b) == /\ mp /\ h[Len(h)] \in {"begin", "tok"} /\ SaveState(b) /\ Log(IF Len(b) = 2 THEN "s1" ELSE "s2")
            /\ f' = [f EXCEPT ![cnt % 2].b = @ \o b] /\ UNCHANGED <<pvars, cnt, asked>>
Buf1 == mp /\ h[Len(h)] \in {"begin", "tok", "s1", "s2"} /\ SavePass(<<98>>) /\ Log("np") /\ UNCHANGED <<pvars, f, cnt, asked>>
Quit1(how) == /\ phase = "run" /\ mp /\ phase' = "gone" /\ ending' = [how |-> "verdict", code |-> IF how = "WA" THEN WA ELSE AC, ch |-> "none"] /\ Log(how)
              /\ (IF how = "NEXT" THEN Another /\ asked' = TRUE ELSE UNCHANGED <<mpvars, asked>>)
              /\ UNCHANGED <<role, argv, files, set, streams, outs, cons, order, f, cnt>>
              /\ (Emit /\ runs = MaxRuns => PrintT("@@" \o ToJson(h')))
Again == /\ phase = "gone" /\ runs < MaxRuns /\ phase' = "run" /\ ending' = [how |-> "live"] /\ Launch /\ UNCHANGED <<role, argv, files, set, streams, outs, cons, order, f, cnt, h, asked>>
Next == Start1 \/ Read1 \/ Save1(A) \/ Save1(A \o A \o A) \/ Buf1 \/ (\E q \in {"NEXT", "AC", "WA"} : Quit1(q)) \/ Again
Spec == Init /\ [][Next]_vars
Counter == mp => cnt = Pass
\* the alternating files implement the hand over
HandOver == mp => /\ f[Pass % 2].b = nst
                  /\ (HasPrev => f[(Pass + 1) % 2].b = prev.input /\ prev.input = saved)
NoGhost == (mp /\ Pass = 0) => ~f[1].has
Asked == asked /\ phase = "gone" => file.has /\ file.b = buf /\ ending.code = AC
\* nextpass.in never changes without being asked for
OnlyAsked == [][file' # file => asked' /\ phase' = "gone"]_vars
============================================================================
