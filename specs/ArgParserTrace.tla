--------------------------- MODULE ArgParserTrace ---------------------------
EXTENDS ArgParser, TraceKit
VARIABLES argv, alive
vars == <<argv, alive, l>>
TInit == TKInit /\ argv = <<>> /\ alive = FALSE
New == Is("new") /\ argv' = Ev.argv /\ alive' = ~Dup(Ev.argv) /\ Ev.code = (IF Dup(Ev.argv) THEN -1 ELSE 0)
Same == UNCHANGED <<argv, alive>>
Res(e) == CASE e.how = "cmd" -> Lookup(argv, e.name) [] e.how = "raw" -> Raw(argv, e.name) [] e.how = "all" -> [found |-> TRUE, args |-> argv]
\* conversion of one argument: "yes", "no", "any" (forms the documentation does not mention)
IntV(a) == IF ArgInt(a) THEN "yes" ELSE "no"
Mundane(a) == \A i \in DOMAIN a : a[i] \in 48..57 \cup {43, 45, 46, 69, 101}
RealV(a) == IF RealToken(a) THEN Parse(a, RealToken) ELSE IF Mundane(a) \/ (\A i \in DOMAIN a : a[i] \in {103, 104, 95, 58}) THEN "no" ELSE "any"
Conv1(ty, a) == CASE ty = "s" -> "yes" [] ty = "i" -> IntV(a) [] ty = "r" -> RealV(a)
ValOK(ty, a, v) == CASE ty = "s" -> v = a [] ty = "i" -> ZFrom(v) = ZFrom(NoPlus(a)) [] ty = "r" -> (RealToken(a) /\ Moderate(a)) => Rounded(v, a, 62)
Query == /\ Is("query") /\ alive /\ Same
         /\ Ev.code = (IF Ev.how # "all" /\ ~IsName(Ev.name) THEN -1 ELSE 0)
         /\ Ev.code = 0 => LET r == Res(Ev) IN
              /\ Ev.found = r.found /\ Ev.conv = r.found /\ Ev.count = Len(r.args)
              \* parameters -1 .. count+1
              /\ Len(Ev.params) = Len(r.args) + 3
              /\ \A k \in DOMAIN Ev.params : LET i == k - 1 IN
                    /\ Ev.params[k].x = (i \in DOMAIN r.args)
                    /\ Ev.params[k].s = (IF i \in DOMAIN r.args THEN r.args[i] ELSE <<63>>)
              /\ Ev.first = (IF r.args = <<>> THEN <<63>> ELSE r.args[1])
              /\ Ev.list = r.args
\* list and tuple conversions.  n = -1: all parameters
AllC(ty, a) == IF \E i \in DOMAIN a : Conv1(ty, a[i]) = "no" THEN "no" ELSE IF \A i \in DOMAIN a : Conv1(ty, a[i]) = "yes" THEN "yes" ELSE "any"
ListEv == /\ Is("list") /\ alive /\ Same
          /\ LET a0 == Res(Ev).args
                 few == Ev.n > Len(a0)
                 a == IF Ev.n < 0 \/ few THEN a0 ELSE SubSeq(a0, 1, Ev.n)
             IN /\ Fits(IF few THEN "no" ELSE AllC(Ev.ty, a), Ev.code = 0)
                /\ Ev.code \in {0, -1}
                /\ Ev.code = 0 => Len(Ev.vals) = Len(a) /\ \A i \in DOMAIN a : ValOK(Ev.ty, a[i], Ev.vals[i])
\* single conversion of parameter i (0: first of the command) with or without default
OneEv == /\ Is("one") /\ alive /\ Same
         /\ LET a == Res(Ev).args
                have == Ev.i + 1 \in DOMAIN a
            IN IF have THEN /\ Fits(Conv1(Ev.ty, a[Ev.i + 1]), Ev.code = 0) /\ Ev.code \in {0, -1}
                            /\ Ev.code = 0 => ValOK(Ev.ty, a[Ev.i + 1], Ev.val)
               ELSE IF Ev.def THEN Ev.code = 0 /\ Ev.isdef ELSE Ev.code = -1
Index == /\ Is("idx") /\ alive /\ Same /\ Ev.code = (IF Ev.i + 1 \in DOMAIN argv THEN 0 ELSE -1)
         /\ Ev.code = 0 => Ev.val = argv[Ev.i + 1]
Next == New \/ Query \/ ListEv \/ OneEv \/ Index
TraceSpec == TInit /\ [][Next]_vars
=============================================================================
