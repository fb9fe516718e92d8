---------------------------- MODULE ChainTrace ----------------------------
EXTENDS Chain, TraceKit
vars == <<chvars, l>>
TInit == TKInit /\ kind = "ints" /\ input = <<>> /\ pos = 1 /\ strict = TRUE /\ dead = FALSE /\ cs = TRUE /\ cons = <<>> /\ order = <<>> /\ sent = <<>> /\ whole = FALSE
\* decimals as exact numbers: |a - b| <= tol * 10^-e
Diff10(a, b, tol, e) == LET x == Dec(a)  y == Dec(b)  k == IF x.e < y.e THEN (IF x.e < -e THEN x.e ELSE -e) ELSE (IF y.e < -e THEN y.e ELSE -e)
                            Sc(d) == [s |-> d.neg /\ d.m # <<>>, m |-> Mul(d.m, Pow10(d.e - k))]
                        IN Le(ZAbs(ZSub(Sc(x), Sc(y))).m, MulSmall(Pow10(-e - k), tol))
Close6(a, b) == Diff10(a, b, 501, 9)       \* half a unit of the sixth decimal
Close12(a, b) == Diff10(a, b, 1, 12)
Equal(a, b) == a = b
GenEv == Is("gen") /\ Ev.code = 0 /\ Generate(Ev.kind, Ev.v, Ev.text)
         /\ (Ev.kind # "reals" => Ev.text = Text(Ev.kind, Ev.v))
DamageEv == Is("damage") /\ Damage(Ev.text)
ValEv == Is("val") /\ (IF kind = "reals" THEN Validate(Ev.code, Ev.v, Close12, Close6) ELSE Validate(Ev.code, Ev.v, Equal, Equal))
Next == GenEv \/ DamageEv \/ ValEv
TraceSpec == TInit /\ [][Next]_vars
===========================================================================
