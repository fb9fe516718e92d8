---------------------------- MODULE ReaderTrace ----------------------------
EXTENDS Reader, TraceKit
VARIABLE onFail
vars == <<rdvars, onFail, l>>
Names == {"x", "y", "z", "long_name", "q"}
TInit == TKInit /\ input = <<>> /\ pos = 1 /\ strict = TRUE /\ dead = TRUE /\ onFail = 0 /\ cs = TRUE /\ cons = [n \in Names |-> None] /\ order = <<>>
New == /\ Is("new") /\ input' = Ev.input /\ strict' = Ev.strict /\ cs' = Ev.cs /\ pos' = 1 /\ dead' = FALSE
       /\ onFail' = Ev.onFail /\ cons' = [n \in Names |-> None] /\ order' = <<>>
Elem(r) == \* read arguments as recorded
    [k |-> r.k, b |-> r.b, lo |-> ZFrom(r.lo), hi |-> ZFrom(r.hi), pat |-> r.pat, con |-> r.con, dlo |-> r.dlo, dhi |-> r.dhi]
CodeOf(s) == IF s.o = "ok" THEN 0 ELSE IF s.o = "dead" THEN onFail ELSE -1
ValOK(k, tok, res) == IF k \in {"real", "rs"} THEN Rounded(res, tok, 62) ELSE res = tok
Finish(s) == Apply(s) /\ Ev.code = CodeOf(s) /\ UNCHANGED onFail
             /\ ((strict /\ s.o # "dead") => Ev.rem = Len(input) - (s.p - 1))
Read == /\ Is("read") /\ LET s == Single(Elem(Ev.k), St) IN Finish(s) /\ (s.o = "ok" => Len(Ev.res) = 1 /\ ValOK(Ev.k.k, s.v[1], Ev.res[1]))
BulkEv == /\ Is("bulk")
          /\ LET s == Bulk(Elem(Ev.k), Ev.n, Ev.sep, St)
             IN Finish(s) /\ (s.o = "ok" => Len(Ev.res) = Len(s.v) /\ \A i \in DOMAIN s.v : ValOK(Ev.k.k, s.v[i], Ev.res[i]))
SepEv == Is("sep") /\ Finish(Sep(Ev.c, St))
ExpEv == Is("expect") /\ Finish(Expect([t |-> Ev.t, val |-> Ev.val], St))
\* constraints.  mention: name looked up for the first time (refused if not a token)
NameOk(n) == IsTok(n)
Mention == /\ Is("name") /\ Ev.code = (IF IsTok(Ev.bytes) THEN 0 ELSE -1)
           /\ order' = (IF Ev.code = 0 /\ (\A i \in DOMAIN order : order[i] # Ev.name) THEN Append(order, Ev.name) ELSE order)
           /\ UNCHANGED <<input, pos, strict, dead, cs, cons, onFail>>
\* direct logging
LogEv == /\ Is("log")
         /\ LET c == cons[Ev.con]
                z(d) == IF Ev.ty = "real" THEN Thousandths(d) ELSE ZFrom(d)
                ok == TypeOk(c, Ev.ty)
            IN /\ Ev.code = (IF ok THEN 0 ELSE -1)
               /\ cons' = [cons EXCEPT ![Ev.con] = IF ok THEN Logged(c, Ev.ty, z(Ev.lo), z(Ev.hi), z(Ev.v)) ELSE c]
         /\ UNCHANGED <<input, pos, strict, dead, cs, order, onFail>>
\* the file written at the end
Used == SelectSeq(order, LAMBDA n : cons[n].ty # "none")
FileEv == /\ Is("file") /\ Len(Ev.lines) = Len(Used) /\ (\A i \in DOMAIN Used : LineOK(cons[Used[i]], Used[i], Ev.lines[i])) /\ Ev.nl
          /\ UNCHANGED <<rdvars, onFail>>
\* string comparison helper
EqPos(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                   D == {i \in 1..m : a[i] # b[i]}
               IN IF D # {} THEN CHOOSE i \in D : \A j \in D : i <= j ELSE m + 1
StrEq == /\ Is("streq") /\ LET a == IF Ev.cs THEN Ev.a ELSE FoldSeq(Ev.a)
                               b == IF Ev.cs THEN Ev.b ELSE FoldSeq(Ev.b)
                           IN Ev.eq = (a = b) /\ Ev.has = ~Ev.eq /\ (Ev.has => Ev.pos = EqPos(a, b) - 1)
         /\ UNCHANGED <<rdvars, onFail>>
Next == New \/ Read \/ BulkEv \/ SepEv \/ ExpEv \/ Mention \/ LogEv \/ FileEv \/ StrEq
TraceSpec == TInit /\ [][Next]_vars
============================================================================
