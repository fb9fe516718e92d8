---------------------------- MODULE ReportTrace ----------------------------
EXTENDS Report, TraceKit
VARIABLE seek        \* the position of the stream can be determined
vars == <<rdvars, seek, l>>
TInit == TKInit /\ input = <<>> /\ pos = 1 /\ strict = TRUE /\ dead = TRUE /\ cs = TRUE /\ cons = <<>> /\ order = <<>> /\ seek = TRUE
New == /\ Is("new") /\ input' = Ev.input /\ strict' = Ev.strict /\ cs' = Ev.cs /\ pos' = 1 /\ dead' = FALSE /\ seek' = Ev.seek
       /\ UNCHANGED <<cons, order>>
Elem(r) == [k |-> r.k, b |-> r.b, lo |-> ZFrom(r.lo), hi |-> ZFrom(r.hi), pat |-> r.pat, con |-> "", dlo |-> r.dlo, dhi |-> r.dhi]
\* the report of a read which began at p; why: condition on the reason if there was a piece to refuse
Reported(p, why(_)) == LET pc == Piece(p)  m == Ev.msg IN
    IF pc[1] = 0 THEN ~m.where /\ HasText(WordEOF, m.reason)
    ELSE m.where = seek /\ (m.where => Located(m, pc[1], pc[2])) /\ why(m.reason)
Got(p) == LET pc == Piece(p) IN Fold(SubSeq(input, pc[1], pc[2] - 1))
\* a token was read (and refused for its content)
Full(p) == LET pc == Piece(p) IN ~strict \/ IsGraph(input[pc[1]])
Finish(s, p, why(_)) == /\ Apply(s) /\ UNCHANGED seek /\ Ev.dead = (s.o = "dead") /\ (Ev.dead => Reported(p, why))
Read == Is("read") /\ LET k == Elem(Ev.k) IN Finish(Single(k, St), pos, LAMBDA r : Full(pos) => WhyElem(k, Got(pos), r))
\* a bulk read fails at some element or at a separator; the state machine stops there
BulkEv == /\ Is("bulk")
          /\ LET k == Elem(Ev.k)  s == Bulk(k, Ev.n, Ev.sep, St)  n == Len(s.v)
                 \* was it a separator?  then the byte before is the end of an element
                 sepF == strict /\ n > 0 /\ s.o = "dead" /\ ~IsSpace(input[s.p - 1])
             IN Finish(s, s.p, LAMBDA r : IF sepF THEN HasText(IF Ev.sep = SP THEN WordSpace ELSE WordNewline, r)
                                    ELSE Full(s.p) => WhyElem(k, Got(s.p), r))
SepEv == Is("sep") /\ Finish(Sep(Ev.c, St), pos, LAMBDA r : HasText(IF Ev.c = SP THEN WordSpace ELSE WordNewline, r))
ExpEv == Is("expect") /\ LET x == [t |-> Ev.t, val |-> Ev.val] IN Finish(Expect(x, St), pos, LAMBDA r : Full(pos) => WhyExpect(x, Got(pos), r))
EofEv == /\ Is("eof") /\ LET d == (IF strict THEN pos ELSE SkipFrom(input, pos)) <= Len(input) IN
            /\ Ev.dead = d /\ (d => Reported(pos, LAMBDA r : HasText(WordEOF, r)))
            /\ dead' = d /\ UNCHANGED <<input, pos, strict, cs, cons, order, seek>>
NotEofEv ==
  /\ Is("noteof") /\ LET d == (IF strict THEN pos ELSE SkipFrom(input, pos)) > Len(input) IN
            /\ Ev.dead = d /\ (d => Reported(pos, LAMBDA r : TRUE))
            /\ dead' = d /\ UNCHANGED <<input, pos, strict, cs, cons, order, seek>>
Next == (~dead /\ (Read \/ BulkEv \/ SepEv \/ ExpEv \/ EofEv \/ NotEofEv)) \/ New
TraceSpec == TInit /\ [][Next]_vars
============================================================================
