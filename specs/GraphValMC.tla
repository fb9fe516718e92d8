---------------------------- MODULE GraphValMC ----------------------------
(* All insertion histories on few vertices.  Next to the declarative        *)
(* definitions an incremental account is kept (partition, counters), which  *)
(* must agree in every reachable state.                                     *)
EXTENDS GraphVal
CONSTANTS N, MaxEdges
VARIABLES parts, forest, cover   \* partition, cycle free so far, partition of the double cover
Init == /\ lo = 0 /\ hi = N /\ dir \in BOOLEAN /\ es = <<>>
        /\ parts = {{x} : x \in V} /\ forest = TRUE /\ cover = {{x} : x \in V \X {0, 1}}
Part(P, x) == CHOOSE p \in P : x \in p
Join(P, x, y) == (P \ {Part(P, x), Part(P, y)}) \cup {Part(P, x) \cup Part(P, y)}
Next == /\ Len(es) < MaxEdges
        /\ \E a, b \in V : /\ Insert(a, b)
                           /\ forest' = (forest /\ Part(parts, a) # Part(parts, b))
                           /\ parts' = Join(parts, a, b)
                           /\ cover' = Join(Join(cover, <<a, 0>>, <<b, 1>>), <<a, 1>>, <<b, 0>>)
Spec == Init /\ [][Next]_<<gvars, parts, forest, cover>>
Agree == /\ parts = Components(V, E)
         /\ forest = IsForest
         /\ IsBipartite = (\A x \in V : Part(cover, <<x, 0>>) # Part(cover, <<x, 1>>))
         /\ (IsTree => IsConnected /\ (dir => TRUE))
         /\ (dir /\ (\E r \in V : Root(r)) => IsDAG /\ IsTree /\ MultiPairs = {})
         /\ (dir => \A r, s \in V : Root(r) /\ Root(s) => r = s)
         /\ (dir => (IsDAG <=> \E s \in [1..N -> V] : Topological(V, E, s)))
         /\ (IsForest => IsBipartite /\ LoopNodes = {} /\ MultiPairs = {})
===========================================================================
