---------------------------- MODULE GraphVal ----------------------------
(* The validating graphs of graph_val.h: a multigraph that only grows.      *)
(* Every observation is a function of the multiset of inserted edges.       *)
EXTENDS GraphMath
VARIABLES lo, hi, dir, es       \* vertices lo..hi-1, directed?, inserted edges in order
gvars == <<lo, hi, dir, es>>

V == lo..(hi - 1)
E == LET R == {<<es[i][1], es[i][2]>> : i \in DOMAIN es} IN IF dir THEN R ELSE Sym(R)
Open(l, r, d) == lo' = l /\ hi' = r /\ dir' = d /\ es' = <<>>
Insert(a, b)  == /\ a \in V /\ b \in V
                 /\ es' = Append(es, <<a, b>>) /\ UNCHANGED <<lo, hi, dir>>

NodeCount == hi - lo
EdgeCount == Len(es)
Same(i, a, b) == \/ es[i][1] = a /\ es[i][2] = b
                 \/ ~dir /\ es[i][1] = b /\ es[i][2] = a
Mult(a, b) == Cardinality({i \in DOMAIN es : Same(i, a, b)})
LoopNodes  == {x \in V : <<x, x>> \in E}
MultiPairs == {p \in V \X V : Mult(p[1], p[2]) > 1}
Out(x) == Succ(E, x)
In(x)  == Pred(E, x)
ConnSet == {p \in V \X V : p[2] \in Reach(Sym(E), p[1])}
NComp  == Cardinality(Components(V, E))
IsConnected == NComp <= 1
IsForest == Len(es) = NodeCount - NComp      \* |E| = |V| - c  <=> no cycle in the multigraph
IsTree == IsConnected /\ IsForest
IsBipartite == Bipartite(V, E)
IsDAG == Acyclic(V, E)
Root(r) == r \in V /\ Len(es) + 1 = NodeCount /\ Reach(E, r) = V
=========================================================================
