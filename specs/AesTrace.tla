------------------------------ MODULE AesTrace ------------------------------
EXTENDS TraceKit, Aes
vars == <<l, cipher, gen>>
TInit == TKInit /\ cipher = <<>> /\ gen = <<>>
StartEv == Is("start") /\ cipher' = <<>> /\ gen' = <<>>
CipherEv == Is("cipher") /\ NewCipher(Ev.h, Ev.key)
EncEv == Is("enc") /\ Ev.h \in DOMAIN cipher /\ EncryptBlock(Ev.h, Ev.in, Ev.out)
NewEv == Is("new") /\ NewGen(Ev.h, Ev.key, Ev.iv)
SeedEv == Is("seed") /\ NewSeeded(Ev.h, Ev.w)
CopyEv == Is("copy") /\ Ev.g \in DOMAIN gen /\ CopyGen(Ev.h, Ev.g)
CallEv == Is("call") /\ Ev.h \in DOMAIN gen /\ Call(Ev.h, Ev.o)
RangeEv == Is("range") /\ Ev.min = Zero64 /\ Ev.max = Neg64(One64) /\ UNCHANGED <<cipher, gen>>
Next == StartEv \/ CipherEv \/ EncEv \/ NewEv \/ SeedEv \/ CopyEv \/ CallEv \/ RangeEv
TraceSpec == TInit /\ [][Next]_vars
=============================================================================
