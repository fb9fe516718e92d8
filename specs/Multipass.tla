----------------------------- MODULE Multipass -----------------------------
(* Runs sharing one feedback directory: pass counter, state handed from one *)
(* run to the next, input file for the next pass.                           *)
(*   runs   number of runs that have started their multipass part           *)
(*   saved  what the run before wrote as next state                         *)
(*   prev   stream over it (none in the first pass)                         *)
(*   nst    what this run has written as next state                         *)
(*   buf    what this run has written as input of the next pass             *)
(*   file   content of nextpass.in, or absent                               *)
EXTENDS Process
VARIABLES runs, mp, saved, prev, nst, buf, file
mpvars == <<runs, mp, saved, prev, nst, buf, file>>
Absent == [has |-> FALSE, b |-> <<>>]
\* a new process starts
Launch == mp' = FALSE /\ prev' = Stream(<<>>, FALSE, TRUE, FAIL) /\ nst' = <<>> /\ buf' = <<>> /\ saved' = (IF mp THEN nst ELSE saved) /\ UNCHANGED <<runs, file>>
Clean == file' = Absent /\ UNCHANGED <<runs, mp, saved, prev, nst, buf>>
Begin == /\ Live /\ ~mp /\ mp' = TRUE /\ runs' = runs + 1 /\ nst' = <<>> /\ buf' = <<>>
         /\ prev' = Stream(IF runs = 0 THEN <<>> ELSE saved, FALSE, TRUE, FAIL) /\ UNCHANGED <<saved, file>>
Pass == runs - 1
HasPrev == mp /\ runs > 1
PrevRead(op, a) == Live /\ HasPrev /\ LET r == ReadRes(prev, op, a) IN
                   IF r.ok THEN prev' = [prev EXCEPT !.p = r.p] ELSE UNCHANGED prev
SaveState(b) == Live /\ mp /\ nst' = nst \o b /\ UNCHANGED <<runs, mp, saved, prev, buf, file>>
SavePass(b)  == Live /\ mp /\ buf' = buf \o b /\ UNCHANGED <<runs, mp, saved, prev, nst, file>>
Another == Live /\ mp /\ file' = [has |-> TRUE, b |-> buf] /\ UNCHANGED <<runs, mp, saved, prev, nst, buf>>
============================================================================
