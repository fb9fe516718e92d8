------------------------------- MODULE Replay -------------------------------
(* Reproducibility: several executions (other compilers, word sizes, or the *)
(* same process after reseeding) of one script from one seed.  memo is what *)
(* the first execution returned; later executions must return the same at   *)
(* every position.                                                          *)
EXTENDS Integers, Sequences
VARIABLES memo, pos, runs
RInit == memo = <<>> /\ pos = 0 /\ runs = 0
Begin == pos' = 0 /\ runs' = runs + 1 /\ UNCHANGED memo
Call(what) == /\ runs > 0 /\ pos' = pos + 1 /\ UNCHANGED runs
              /\ IF pos < Len(memo) THEN memo[pos + 1] = what /\ UNCHANGED memo
                 ELSE runs = 1 /\ memo' = Append(memo, what)
============================================================================
