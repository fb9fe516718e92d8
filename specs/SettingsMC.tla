------------------------------ MODULE SettingsMC ------------------------------
(* Histories of draws and seeds over each engine: what is drawn after a seed *)
(* depends on the seed and the draws since then alone, never on anything     *)
(* drawn before; the engines differ; every draw is in its range.             *)
EXTENDS Settings, FiniteSets, TLC
CONSTANTS Engines, Seeds, MaxLen
QEngines == {"counter", "xoshiro"}
DEngines == {"counter", "xoshiro", "aes"}
QSeeds == {<<48>>}
DSeeds == {<<48>>, <<49>>}
VARIABLES since, hist
Ranges == {<<ZInt(0), ZInt(1)>>, <<ZInt(-3), ZInt(4)>>, <<ZInt(0), Z(FALSE, P2Tab[63])>>}
C(e) == [engine |-> e, shift |-> 0]
Out(v) == ZText(v)
Init == words = <<>> /\ since = <<<<>>, <<>> >> /\ hist = {} /\ \E e \in Engines : conf = C(e) /\ rng = Seeded(e, DefaultSeed)
DoSeed == \E t \in Seeds : Seed(t) /\ since' = <<t, <<>> >> /\ UNCHANGED <<hist, words>>
DoDraw == /\ Len(since[2]) < MaxLen
          /\ \E g \in Ranges : LET d == DrawBelow(conf.engine, rng, Span(g[1], g[2]))  v == ZAdd(g[1], ZNat(d.v)) IN
               /\ Integer(g[1], g[2], v) /\ since' = <<since[1], Append(since[2], g)>> /\ hist' = hist \cup {<< <<since[1], Append(since[2], g)>>, Out(v)>>}
          /\ UNCHANGED words
Next == Cardinality(hist) < 3 /\ (DoSeed \/ DoDraw)
Spec == Init /\ [][Next]_<<conf, rng, words, since, hist>>
Function == \A a, b \in hist : a[1] = b[1] => a[2] = b[2]
InRanges == \A h \in hist : LET g == h[1][2][Len(h[1][2])]  v == ZFrom(h[2]) IN ~ZLt(v, g[1]) /\ ZLt(v, g[2])
ASSUME \A e1, e2 \in Engines : e1 # e2 => Advance(e1, Seeded(e1, DefaultSeed)).w # Advance(e2, Seeded(e2, DefaultSeed)).w
===============================================================================
