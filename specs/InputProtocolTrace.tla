------------------------ MODULE InputProtocolTrace ------------------------
(* Binds InputProtocol to recorded executions of InputStream.               *)
EXTENDS InputProtocol, TraceKit
VARIABLE onFail      \* exit code configured for the stream
vars == <<ipvars, onFail, l>>

TInit == TKInit /\ input = <<>> /\ pos = 1 /\ strict = TRUE /\ dead = TRUE /\ onFail = 0
New == /\ Is("new") /\ input' = Ev.input /\ strict' = Ev.strict /\ pos' = 1 /\ dead' = FALSE
       /\ onFail' = Ev.onFail
Ok   == Ev.code = 0 /\ UNCHANGED onFail
Rem  == strict => Ev.rem = Len(input) - (pos' - 1)     \* bytes left in the underlying stream
Bad  == Ev.code = onFail /\ UNCHANGED onFail
Next == \/ New
        \/ Is("tok")  /\ Ok  /\ ReadToken(Ev.res) /\ Rem
        \/ Is("tok")  /\ Bad /\ FailToken
        \/ Is("sp")   /\ Ok  /\ ReadSep(SP) /\ Rem
        \/ Is("sp")   /\ Bad /\ FailSep(SP)
        \/ Is("nl")   /\ Ok  /\ ReadSep(NL) /\ Rem
        \/ Is("nl")   /\ Bad /\ FailSep(NL)
        \/ Is("eof")  /\ Ok  /\ ReadEof /\ Rem
        \/ Is("eof")  /\ Bad /\ FailEof
        \/ Is("neof") /\ Ok  /\ ReadNotEof /\ Rem
        \/ Is("neof") /\ Bad /\ FailNotEof
TraceSpec == TInit /\ [][Next]_vars
===========================================================================
