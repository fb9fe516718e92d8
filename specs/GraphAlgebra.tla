--------------------------- MODULE GraphAlgebra ---------------------------
(* Textbook definitions of the graph operations, over the values of         *)
(* GraphGen.  New edges carry the default data 0.                           *)
EXTENDS GraphGen
FromRel(d, lo, n, R) == [dir |-> d, lo |-> lo, n |-> n,
                         E |-> {<<e[1], e[2], 0>> : e \in {f \in R : d \/ f[1] < f[2]}}]
Like(g, R)     == FromRel(g.dir, g.lo, g.n, R)
ComplementR(g) == {p \in Verts(g) \X Verts(g) : p[1] # p[2] /\ p \notin Rel(g)}
PowerR(g, k)   == {p \in Verts(g) \X Verts(g) : p[1] # p[2] /\ p[2] \in Ball(Rel(g), {p[1]}, k)}
ClosureR(g)    == {p \in Verts(g) \X Verts(g) : p[1] # p[2] /\ p[2] \in Reach(Rel(g), p[1])}
RangeG(g, a, b) == [g EXCEPT !.lo = a, !.n = b - a,
                    !.E = {e \in @ : e[1] >= a /\ e[1] < b /\ e[2] >= a /\ e[2] < b}]
\* products: vertex (x, y) of Verts(g) x Verts(h) is named by nm
PairsOf(g, h)  == Verts(g) \X Verts(h)
TensorR(g, h, nm(_, _)) ==
  {<<nm(p[1], p[2]), nm(q[1], q[2])>> : p, q \in PairsOf(g, h)} \cap
  UNION {{<<nm(e[1], f[1]), nm(e[2], f[2])>> : f \in Rel(h)} : e \in Rel(g)}
CartR(g, h, nm(_, _)) ==
  UNION {{<<nm(x, f[1]), nm(x, f[2])>> : f \in Rel(h)} : x \in Verts(g)} \cup
  UNION {{<<nm(e[1], y), nm(e[2], y)>> : e \in Rel(g)} : y \in Verts(h)}
\* orientation of an undirected graph by a predicate on ordered pairs with data
DirectedG(g, P(_, _, _)) == [dir |-> TRUE, lo |-> g.lo, n |-> g.n,
   E |-> {e \in g.E : P(e[1], e[2], e[3])} \cup
         {<<e[2], e[1], e[3]>> : e \in {f \in g.E : P(f[2], f[1], f[3])}}]
LineR(g, es)   == {p \in (1..Len(es)) \X (1..Len(es)) : p[1] # p[2] /\
                    LET e == es[p[1]]  f == es[p[2]] IN
                    IF g.dir THEN e[2] = f[1]
                    ELSE {e[1], e[2]} \cap {f[1], f[2]} # {}}
\* same unlabelled graph, any naming of the vertices
IsoRel(S, R, Q) == Cardinality(R) = Cardinality(Q) /\
                   \E f \in Perms(S) : {<<f[e[1]], f[e[2]]>> : e \in R} = Q
============================================================================
