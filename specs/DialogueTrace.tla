--------------------------- MODULE DialogueTrace ---------------------------
(* Recorded dialogues: the team's side and the end of the interactor; what  *)
(* the interactor does between two events is determined.                    *)
EXTENDS Dialogue, TraceKit
vars == <<d, l>>
TInit == TKInit /\ d = New(ZInt(1))
StartEv == Is("start") /\ d' = Settle(New(ZInt(Ev.secret)))
SendEv == Is("send") /\ d' = Settle(Send(d, Ev.t))
HearEv == Is("hear") /\ d.outbox # <<>> /\ Ev.a = d.outbox[1] /\ d' = Settle(Receive(d))
CloseEv == Is("close") /\ d' = Settle(Close(d))
\* the exit code; nothing was left unanswered; the messages are where they belong
ExitEv == Is("exit") /\ d.outbox = <<>> /\ d.state = (IF Ev.code = 42 THEN "AC" ELSE IF Ev.code = 43 THEN "WA" ELSE "?")
          /\ Ev.team = (d.state = "AC") /\ Ev.jury = (d.state = "WA") /\ UNCHANGED d
Next == StartEv \/ SendEv \/ HearEv \/ CloseEv \/ ExitEv
TraceSpec == TInit /\ [][Next]_vars
============================================================================
