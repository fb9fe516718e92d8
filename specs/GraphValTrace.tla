-------------------------- MODULE GraphValTrace --------------------------
EXTENDS GraphVal, TraceKit
TInit == TKInit /\ lo = 0 /\ hi = 0 /\ dir = FALSE /\ es = <<>>
Set(s) == {s[i] : i \in DOMAIN s}
\* each witness is reported as a sequence of length 0 or 1
Opt(o, P(_), exists) == IF o = <<>> THEN ~exists ELSE Len(o) = 1 /\ P(o[1])
Common == /\ Ev.n = NodeCount /\ Ev.size = NodeCount /\ Ev.m = EdgeCount
          /\ \A x \in V : LET i == x - lo + 1 IN
               /\ Set(Ev.adj[i]) = Out(x) /\ Len(Ev.adj[i]) = Cardinality(Out(x))
               /\ Ev.deg[i] = Cardinality(Out(x))
          /\ {Pair(p) : p \in Set(Ev.has)} = E
          /\ Opt(Ev.loop, LAMBDA x : x \in LoopNodes, LoopNodes # {})
          /\ Opt(Ev.multi, LAMBDA p : Pair(p) \in MultiPairs, MultiPairs # {})
Undirected == /\ Ev.conn = IsConnected /\ Ev.forest = IsForest /\ Ev.tree = IsTree
              /\ Ev.bip = IsBipartite
              /\ {Pair(p) : p \in Set(Ev.pairs)} = ConnSet
Directed == /\ \A x \in V : LET i == x - lo + 1 IN
                 /\ Set(Ev.inn[i]) = In(x) /\ Len(Ev.inn[i]) = Cardinality(In(x))
                 /\ Ev.ideg[i] = Cardinality(In(x))
            /\ {Pair(p) : p \in Set(Ev.rev)} = Inv(E)
            /\ Opt(Ev.dag, LAMBDA s : Topological(V, E, s), IsDAG)
            /\ Opt(Ev.root, Root, \E r \in V : Root(r))
\* the observation describes the state after the step
Next == \/ Is("new") /\ Open(Ev.l, Ev.r, Ev.dir)
        \/ Is("add") /\ Insert(Ev.a, Ev.b)
        \/ Is("obs") /\ Common /\ (IF dir THEN Directed ELSE Undirected) /\ UNCHANGED gvars
TraceSpec == TInit /\ [][Next]_<<gvars, l>>
==========================================================================
