---------------------------- MODULE ArgParserMC ----------------------------
EXTENDS ArgParser, TLC, Json
CONSTANTS MaxLen, Emit
Words == {<<45, 45, 120>>, <<45, 45, 121>>, <<45, 45>>, <<97>>, <<45, 53>>}      \* --x --y -- a -5
VARIABLES argv, i, cmd, table, done
vars == <<argv, i, cmd, table, done>>
Init == /\ argv \in UNION {[1..n -> Words] : n \in 1..MaxLen}
        /\ i = 1 /\ cmd = <<>> /\ table = <<>> /\ done = "scan"
\* table: sequence of <<command, args>>; the running command is last
Names(t) == {t[k][1] : k \in DOMAIN t}
Put(t, c, a) == IF \E k \in DOMAIN t : t[k][1] = c THEN [k \in DOMAIN t |-> IF t[k][1] = c THEN <<c, Append(t[k][2], a)>> ELSE t[k]]
                ELSE Append(t, <<c, <<a>>>>)
Scan == /\ done = "scan" /\ i <= Len(argv) /\ i' = i + 1 /\ UNCHANGED argv
        /\ IF IsCmd(argv[i])
           THEN IF argv[i] \in Names(table) THEN done' = "refused" /\ UNCHANGED <<cmd, table>>
                ELSE cmd' = argv[i] /\ table' = Append(table, <<argv[i], <<>>>>) /\ UNCHANGED done
           ELSE table' = Put(table, cmd, argv[i]) /\ UNCHANGED <<cmd, done>>
Stop == /\ done = "scan" /\ i > Len(argv) /\ done' = "ok" /\ UNCHANGED <<argv, i, cmd, table>>
        /\ Emit => PrintT("@@" \o ToJson(argv))
Refused == /\ done = "refused" /\ done' = "ref" /\ UNCHANGED <<argv, i, cmd, table>> /\ (Emit => PrintT("@@" \o ToJson(argv)))
Next == Scan \/ Stop \/ Refused
Spec == Init /\ [][Next]_vars
Of(c) == IF c \in Names(table) THEN (CHOOSE k \in DOMAIN table : table[k][1] = c) ELSE 0
Agree == /\ done \in {"ok", "ref"} => ((done = "ref") <=> Dup(argv))
         /\ done = "ok" => \A w \in Words : IF IsCmd(w) THEN
                LET r == Lookup(argv, w) IN (r.found <=> Of(w) # 0) /\ (r.found => r.args = table[Of(w)][2])
              ELSE ~Lookup(argv, w).found
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE (IF t[1][1] = <<>> THEN <<>> ELSE <<t[1][1]>>) \o t[1][2] \o Cat(Tail(t))
\* the commands partition the argument list
Partition == done = "ok" => Cat(table) = argv
RawOk == done = "ok" => \A w \in Words : LET r == Raw(argv, w) IN
            r.found => Len(r.args) < Len(argv) /\ argv[Len(argv) - Len(r.args)] = w /\ \A k \in 1..(Len(argv) - Len(r.args) - 1) : argv[k] # w
============================================================================
