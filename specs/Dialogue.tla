----------------------------- MODULE Dialogue -----------------------------
(* An interactor and a team that alternate over two pipes: the team sends   *)
(* guesses, the interactor answers each before it waits for the next.       *)
(*   inbox    guesses sent and not yet read      open    team may still send *)
(*   outbox   answers sent and not yet read      asked   guesses read        *)
EXTENDS Tokens
(* One record: [secret, inbox, outbox, open, asked, state]; state is "run",   *)
(* "found" or the verdict.                                                  *)
VARIABLE d
Limit == 10
HIGHER == <<104, 105, 103, 104, 101, 114>>
LOWER == <<108, 111, 119, 101, 114>>
CORRECT == <<99, 111, 114, 114, 101, 99, 116>>
GuessOK(t) == IntToken(t) /\ InRange(ZFrom(t), ZInt(1), ZInt(1001))
Answer(t, x) == IF ZFrom(t) = x THEN CORRECT ELSE IF ZLt(ZFrom(t), x) THEN HIGHER ELSE LOWER
New(x) == [secret |-> x, inbox |-> <<>>, outbox |-> <<>>, open |-> TRUE, asked |-> 0, state |-> "run"]
\* the team
Send(s, t) == [s EXCEPT !.inbox = Append(@, t)]
Receive(s) == [s EXCEPT !.outbox = Tail(@)]
Close(s) == [s EXCEPT !.open = FALSE]
\* the interactor: at most one step is possible; Stuck: it waits for the team
Blocked(s) == s.inbox = <<>> /\ s.open
Waits(s) == \/ s.state \in {"AC", "WA"}
            \/ s.state = "run" /\ s.asked < Limit /\ Blocked(s)
            \/ s.state = "found" /\ Blocked(s)
Move(s) == IF s.state = "found" THEN [s EXCEPT !.state = IF s.inbox # <<>> THEN "WA" ELSE "AC"]
           ELSE IF s.asked = Limit \/ s.inbox = <<>> \/ ~GuessOK(s.inbox[1]) THEN [s EXCEPT !.state = "WA"]
           ELSE LET a == Answer(s.inbox[1], s.secret) IN
                [s EXCEPT !.inbox = Tail(@), !.outbox = Append(@, a), !.asked = @ + 1, !.state = IF a = CORRECT THEN "found" ELSE "run"]
RECURSIVE Settle(_)
Settle(s) == IF Waits(s) THEN s ELSE Settle(Move(s))
===========================================================================
