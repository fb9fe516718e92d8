---------------------------- MODULE XoshiroTrace ----------------------------
EXTENDS TraceKit, Xoshiro
vars == <<l, eng>>
TInit == TKInit /\ eng = <<>>
StartEv == Is("start") /\ eng' = <<>>
NewEv == Is("new") /\ New(Ev.h, Ev.s)
SeedEv == Is("seed") /\ NewSeeded(Ev.h, Ev.w)
CopyEv == Is("copy") /\ Ev.g \in DOMAIN eng /\ Copy(Ev.h, Ev.g)
CallEv == Is("call") /\ Ev.h \in DOMAIN eng /\ Call(Ev.h, Ev.o)
JumpEv == Is("jump") /\ Ev.h \in DOMAIN eng /\ Jump(Ev.h)
RangeEv == Is("range") /\ Ev.min = Zero64 /\ Ev.max = Neg64(One64) /\ UNCHANGED eng
Next == StartEv \/ NewEv \/ SeedEv \/ CopyEv \/ CallEv \/ JumpEv \/ RangeEv
TraceSpec == TInit /\ [][Next]_vars
=============================================================================
