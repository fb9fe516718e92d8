-------------------------- MODULE UnionFindTrace --------------------------
EXTENDS UnionFind, TraceKit
TInit == TKInit /\ n = 0 /\ parts = {}
\* find: any member of the set, the same one for all members
Reps == /\ \A x \in Elems : Ev.reps[x + 1] \in Part(x)
        /\ \A p \in parts : Cardinality({Ev.reps[x + 1] : x \in p}) = 1
Next == \/ Is("new")  /\ Open(Ev.n)
        \/ Is("join") /\ Ev.res = ~Connected(Ev.a, Ev.b) /\ Join(Ev.a, Ev.b)
        \/ Is("conn") /\ Ev.res = Connected(Ev.a, Ev.b) /\ UNCHANGED ufvars
        \/ Is("find") /\ Ev.res \in Part(Ev.a) /\ UNCHANGED ufvars
        \/ Is("all")  /\ Reps /\ UNCHANGED ufvars
TraceSpec == TInit /\ [][Next]_<<ufvars, l>>
===========================================================================
