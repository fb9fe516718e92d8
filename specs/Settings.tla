------------------------------ MODULE Settings ------------------------------
(* A program which overrode settings before the include: conf holds what it *)
(* asked for (the rest are the defaults), rng the state of the engine which *)
(* the random functions draw from.  Every observable effect of a setting is *)
(* an action.                                                               *)
(*   conf [engine, prec, lower, eps (exact number), large (decimal), shift] *)
(*   shift: what the replaced exit function adds to the exit code           *)
(*   rng  the state, of a form which depends on the engine                  *)
EXTENDS Draw
VARIABLES conf, rng
X == INSTANCE Xoshiro WITH eng <- rng
A == INSTANCE Aes WITH cipher <- rng, gen <- rng
\* the smallest engine: a counter, only used to explore the model
Seeded(engine, w) == CASE engine = "xoshiro" -> X!Seeded(w)
                       [] engine = "aes" -> [k |-> A!RoundKeys(A!PiKey), c |-> A!SeedIv(w)]
                       [] engine = "counter" -> w
Advance(engine, r) == CASE engine = "xoshiro" -> [w |-> X!Output(r), r |-> X!Step(r)]
                        [] engine = "aes" -> LET c == A!Inc(r.c) IN [w |-> A!Fold(A!Encrypt(r.k, c)), r |-> [r EXCEPT !.c = c]]
                        [] engine = "counter" -> [w |-> X!Add64(r, X!One64), r |-> X!Add64(r, X!One64)]
RECURSIVE Value(_, _, _)
Value(w, i, acc) == IF i = 0 THEN acc ELSE Value(w, i - 1, AddSmall(MulSmall(acc, 256), w[i]))
Num64(w) == Value(w, 8, <<>>)
RECURSIVE DrawBelow(_, _, _)
DrawBelow(engine, r, s) == LET a == Advance(engine, r)  x == Num64(a.w) IN IF Accept(x, s) THEN [v |-> High(x, s), r |-> a.r] ELSE DrawBelow(engine, a.r, s)
DefaultSeed == X!FromText64(<<51, 49, 52, 49, 53, 57, 50, 54, 53, 51, 53, 56, 57, 55, 57, 51, 50, 51, 56>>)
\* actions
Begin(c) == conf' = c /\ rng' = Seeded(c.engine, DefaultSeed)
Seed(t) == rng' = Seeded(conf.engine, X!FromText64(t)) /\ UNCHANGED conf
Integer(lo, hi, v) == LET d == DrawBelow(conf.engine, rng, Span(lo, hi)) IN v = ZAdd(lo, ZNat(d.v)) /\ rng' = d.r /\ UNCHANGED conf
Word(v) == LET a == Advance(conf.engine, rng) IN v = Signed(Num64(a.w)) /\ rng' = a.r /\ UNCHANGED conf
Still == UNCHANGED <<conf, rng>>
\* letters in the default case
FoldTo(lower, c) == IF lower /\ c \in 65..90 THEN c + 32 ELSE IF ~lower /\ c \in 97..122 THEN c - 32 ELSE c
Folded(s) == [i \in DOMAIN s |-> FoldTo(conf.lower, s[i])]
Near(a, b, r) == LET t == Tol(a, b, conf.eps, conf.eps) IN t = "any" \/ r = (t = "yes")
============================================================================
