----------------------------- MODULE ReaderMC -----------------------------
(* Small exhaustive model: every input over a small alphabet, histories of  *)
(* up to MaxOps bulk reads; the stimuli are replayed on the implementation. *)
EXTENDS Reader, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxOps, Emit
VARIABLE hist
Inputs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
S0 == [k |-> "str", b |-> FALSE, pat |-> "", con |-> ""]
S1 == [k |-> "str", b |-> TRUE, lo |-> ZInt(1), hi |-> ZInt(2), pat |-> "", con |-> "x"]
I0 == [k |-> "int", b |-> FALSE, con |-> ""]
I1 == [k |-> "int", b |-> TRUE, lo |-> ZInt(1), hi |-> ZInt(11), con |-> "y"]
Kinds == [s |-> S0, S |-> S1, i |-> I0, I |-> I1]
Seps == {SP, NL, 120}
Init == /\ input \in Inputs /\ strict \in BOOLEAN /\ cs \in BOOLEAN /\ pos = 1 /\ dead = FALSE
        /\ cons = [n \in {"x", "y"} |-> None] /\ order = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E k \in DOMAIN Kinds, n \in 0..3, c \in Seps :
             /\ Apply(Bulk(Kinds[k], n, c, St))
             /\ hist' = Append(hist, <<k, n, c>>)
             /\ Emit => PrintT("@@" \o ToJson([s |-> strict, c |-> cs, i |-> input, h |-> hist']))
Spec == Init /\ [][Next]_<<rdvars, hist>>
View == <<rdvars, Len(hist)>>
\* C06: bulk reads decompose; on lenient streams the separator does not matter; nothing is read for count 0
Cut == \A k \in DOMAIN Kinds, c \in {SP, NL}, a, b \in 1..2 : ~dead =>
         Bulk(Kinds[k], a + b, c, St) = Bulk(Kinds[k], b, c, Sep(c, Bulk(Kinds[k], a, c, St)))
Empty == \A k \in DOMAIN Kinds, c \in {SP, NL} : Bulk(Kinds[k], 0, c, St) = St
LenientSep == (~strict /\ ~dead) => \A k \in DOMAIN Kinds, n \in 0..3 : Bulk(Kinds[k], n, SP, St) = Bulk(Kinds[k], n, NL, St)
Refuse == ~dead => \A k \in DOMAIN Kinds, n \in 0..3 : LET s == Bulk(Kinds[k], n, 120, St) IN s.o = "refused" /\ s.p = pos /\ s.c = cons
\* C07: consistency of the log
LogOk == \A n \in DOMAIN cons : LET c == cons[n] IN c.ty # "none" =>
            /\ ZLe(c.min, c.max) /\ (c.a => ZLe(c.min, c.lo) \/ ZLe(c.lo, c.min)) /\ ZLe(c.lo, c.min) /\ ZLe(c.max, c.hi)
            /\ (c.min = c.lo) = c.a /\ (c.max = c.hi) = c.b          \* one pair of limits per name in this model
Forward == [][pos' >= pos /\ (\A n \in DOMAIN cons : cons[n].ty # "none" => (ZLe(cons'[n].min, cons[n].min) /\ ZLe(cons[n].max, cons'[n].max)))]_<<rdvars, hist>>
===========================================================================
