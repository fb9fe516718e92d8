---------------------------- MODULE DialogueMC ----------------------------
(* A team which sends one guess, waits for the answer and goes on (also with *)
(* wrong tokens, also leaving at any time): no deadlock, always a verdict.  *)
EXTENDS Dialogue
CONSTANTS Secrets
Guesses == {<<49>>, <<53, 48>>, <<57, 57>>, <<48>>, <<120>>}
VARIABLE waiting
vars == <<d, waiting>>
Init == d \in {New(ZInt(x)) : x \in Secrets} /\ waiting = FALSE
Guess == ~waiting /\ d.open /\ d.state = "run" /\ \E g \in Guesses : d' = Send(d, g) /\ waiting' = TRUE
Hear == waiting /\ d.outbox # <<>> /\ d' = Receive(d) /\ waiting' = FALSE
Leave == d.open /\ d' = Close(d) /\ UNCHANGED waiting
Interactor == ~Waits(d) /\ d' = Move(d) /\ UNCHANGED waiting
Done == d.state \in {"AC", "WA"} /\ UNCHANGED vars
Next == Guess \/ Hear \/ Leave \/ Interactor \/ Done
Fair == WF_vars(Interactor) /\ WF_vars(Hear) /\ WF_vars(Guess) /\ SF_vars(Leave)
Spec == Init /\ [][Next]_vars /\ Fair
Ends == <>(d.state \in {"AC", "WA"})
\* at most one guess is ever on its way, each is answered before the next
Alternate == Len(d.inbox) + Len(d.outbox) <= 1
Counted == d.asked <= Limit
OnlyIfFound == d.state = "AC" => d.asked > 0
\* the interactor settles: running it to the end in one go is the same as step by step
Settles == Waits(Settle(d)) /\ (~Waits(d) => Settle(Move(d)) = Settle(d))
\* a waiting team which is owed an answer gets it (the interactor is never blocked on a team that waits for it)
NoDeadlock == (waiting /\ d.outbox = <<>> /\ d.open) => (~Waits(d) \/ d.state \in {"AC", "WA"})
===========================================================================
