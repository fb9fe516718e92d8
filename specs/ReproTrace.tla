----------------------------- MODULE ReproTrace -----------------------------
(* The engine behind the random functions is the twister with the seed      *)
(* given (or 3141592653589793238), and call scripts are reproducible.       *)
EXTENDS MT19937, Replay, TraceKit
DefaultSeed == FromText64(<<51, 49, 52, 49, 53, 57, 50, 54, 53, 51, 53, 56, 57, 55, 57, 51, 50, 51, 56>>)
v == <<mt, idx, memo, pos, runs, l>>
Init0 == TKInit /\ RInit /\ mt = <<>> /\ idx = 0
New == Is("new") /\ mt' = <<>> /\ idx' = 0 /\ memo' = <<>> /\ pos' = 0 /\ runs' = 0
Seeded == Is("seeded") /\ SeedWith(IF Ev.how = "default" THEN DefaultSeed ELSE FromText64(Ev.seed)) /\ UNCHANGED <<memo, pos, runs>>
Full == Is("full") /\ mt # <<>> /\ Ev.w = Next64(Len(Ev.w)) /\ Skip(Len(Ev.w)) /\ UNCHANGED <<memo, pos, runs>>
Run == Is("run") /\ Begin /\ UNCHANGED <<mt, idx>>
OneCall == Is("call") /\ Call(<<Ev.f, Ev.a, Ev.c, Ev.r>>) /\ UNCHANGED <<mt, idx>>
TraceSpec == Init0 /\ [][New \/ Seeded \/ Full \/ Run \/ OneCall]_v
============================================================================
