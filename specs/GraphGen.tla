---------------------------- MODULE GraphGen ----------------------------
(* The generating graphs of graph_gen.h as values: vertices lo..lo+n-1 and *)
(* a set of labelled edges <<from, to, data>>, at most one per vertex pair *)
(* (undirected edges are stored with from < to).                           *)
EXTENDS GraphMath
Key(d, a, b)  == IF d \/ a < b THEN <<a, b>> ELSE <<b, a>>
Edge(d, a, b, x) == LET k == Key(d, a, b) IN <<k[1], k[2], x>>
Verts(g)      == g.lo .. (g.lo + g.n - 1)
Keys(g)       == {<<e[1], e[2]>> : e \in g.E}
Empty(d, lo, n) == [dir |-> d, lo |-> lo, n |-> n, E |-> {}]
HasEdge(g, a, b) == Key(g.dir, a, b) \in Keys(g)
DataOf(g, a, b)  == (CHOOSE e \in g.E : <<e[1], e[2]>> = Key(g.dir, a, b))[3]
\* adjacency as a relation (symmetric for undirected graphs)
Rel(g)        == IF g.dir THEN Keys(g) ELSE Sym(Keys(g))
WellFormed(g) == /\ g.n >= 0
                 /\ \A e \in g.E : e[1] \in Verts(g) /\ e[2] \in Verts(g) /\ e[1] # e[2] /\ (~g.dir => e[1] < e[2])
                 /\ Cardinality(Keys(g)) = Cardinality(g.E)
\* edits
Without(g, a, b) == {e \in g.E : <<e[1], e[2]>> # Key(g.dir, a, b)}
AddE(g, a, b, x) == [g EXCEPT !.E = Without(g, a, b) \cup {Edge(g.dir, a, b, x)}]
EraseE(g, a, b)  == [g EXCEPT !.E = Without(g, a, b)]
CanAdd(g, a, b)  == a \in Verts(g) /\ b \in Verts(g) /\ a # b
Shift(g, by)     == [g EXCEPT !.lo = @ + by, !.E = {<<e[1] + by, e[2] + by, e[3]>> : e \in @}]
SetMin(g, lo)    == Shift(g, lo - g.lo)
Map(g, f)        == [g EXCEPT !.E = {Edge(g.dir, f[e[1]], f[e[2]], e[3]) : e \in @}]
Override(E, F)   == {e \in E : ~\E f \in F : f[1] = e[1] /\ f[2] = e[2]} \cup F
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Combine(g, o) == LET lo == Min(g.lo, o.lo)  hi == Max(g.lo + g.n, o.lo + o.n) IN
                 [g EXCEPT !.lo = lo, !.n = hi - lo, !.E = Override(@, o.E)]
AppendG(g, o) == LET s == Shift(o, g.lo + g.n - o.lo) IN [g EXCEPT !.n = @ + o.n, !.E = @ \cup s.E]
ReverseG(g)   == [g EXCEPT !.E = {<<e[2], e[1], e[3]>> : e \in @}]
\* every graph that permuting vertex ids may produce
Perms(S)      == {f \in [S -> S] : \A x, y \in S : f[x] = f[y] => x = y}
IsoByPerm(g, h) == /\ g.n = h.n /\ g.lo = h.lo /\ Cardinality(g.E) = Cardinality(h.E)
                   /\ \E f \in Perms(Verts(g)) : Map(g, f) = h
=========================================================================
