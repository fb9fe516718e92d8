---------------------------- MODULE FormatTrace ----------------------------
EXTENDS Format, TraceKit
vars == <<fmtvars, l>>
TInit == TKInit /\ text = <<>> /\ prec = DefaultPrec
New == Is("new") /\ Open
PutEv == Is("w") /\ Put(Ev.v) /\ Ev.got = text'
PrecEv == Is("prec") /\ SetPrec(Ev.n)
StrEv == Is("str") /\ Ev.got = AsString(Ev.v) /\ Ev.got2 = Ev.got /\ UNCHANGED fmtvars
Next == New \/ PutEv \/ PrecEv \/ StrEv
TraceSpec == TInit /\ [][Next]_vars
============================================================================
