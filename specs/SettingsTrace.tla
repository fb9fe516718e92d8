--------------------------- MODULE SettingsTrace ---------------------------
EXTENDS TraceKit, Settings
F == INSTANCE Format WITH text <- words, prec <- words
vars == <<l, conf, rng, words>>
TInit == TKInit /\ conf = <<>> /\ rng = <<>> /\ words = <<>>
StartEv == Is("start") /\ Begin(Ev.conf)
SeedEv == Is("seed") /\ Seed(Ev.t)
IntEv == Is("int") /\ Integer(ZFrom(Ev.lo), ZFrom(Ev.hi), ZFrom(Ev.v))
WordEv == Is("word") /\ Word(ZFrom(Ev.v))
\* reals written with the default precision: to a stream, after a change of precision of some other stream
WriteEv == Is("write") /\ Still /\ \A i \in DOMAIN Ev.q : Ev.q[i].t = F!RealText(Ev.q[i].x, conf.prec)
\* a character, a string, a token of a stream which ignores the case
CaseEv == Is("case") /\ Still /\ LET f == Folded(Ev.s) IN Ev.chars = f /\ Ev.str = f /\ Ev.tok = f
\* how: floatEqual, a stream which was given no tolerances
NearEv == Is("near") /\ Still /\ \A i \in DOMAIN Ev.q : \A j \in DOMAIN Ev.q[i].r : Near(Ev.q[i].a, Ev.q[i].b, Ev.q[i].r[j])
\* the lower and upper bound of a logged real count as attained within the tolerance
BoundEv == Is("bound") /\ Still /\ Near(Ev.x, Ev.lo, Ev.hadlo) /\ Near(Ev.x, Ev.hi, Ev.hadhi)
           /\ Ev.tx = F!RealText(Ev.x, conf.prec) /\ Ev.ty = Ev.tx /\ Ev.tlo = F!RealText(Ev.lo, conf.prec) /\ Ev.thi = F!RealText(Ev.hi, conf.prec)
LargeEv == Is("large") /\ Still /\ Ev.v = conf.large
\* every way to end with a verdict goes through the exit function
Codes == [ac |-> 42, wa |-> 43, pe |-> 43, fail |-> 1, read |-> 43, readfail |-> 1, print |-> 43, next |-> 42]
ExitEv == Is("exit") /\ Still /\ Ev.code = Codes[Ev.how] + conf.shift
TNext == (StartEv \/ SeedEv \/ IntEv \/ WordEv \/ WriteEv \/ CaseEv \/ NearEv \/ BoundEv \/ LargeEv \/ ExitEv) /\ UNCHANGED words
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
