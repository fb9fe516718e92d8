------------------------- MODULE GraphAlgebraTrace -------------------------
EXTENDS GraphAlgebra, TraceKit
EdgesOf(d, s) == {Edge(d, s[i][1], s[i][2], s[i][3]) : i \in DOMAIN s}
\* a logged graph; -1 as data means it must not repeat edges
Gr(d, j) == [dir |-> d, lo |-> j.lo, n |-> j.n, E |-> EdgesOf(d, j.edges)]
Sound(d, j) == j.m = Len(j.edges) /\ Cardinality(Gr(d, j).E) = j.m /\ WellFormed(Gr(d, j))
D == Ev.dir
A == Gr(D, Ev.a)
B == Gr(D, Ev.b)
Res == Gr(D, Ev.res)
Same == Gr(D, Ev.a2) = A          \* argument unchanged by a const operation
Row(h) == [p \in PairsOf(A, h) |-> (p[1] - A.lo) * h.n + (p[2] - h.lo)]
Col(h) == [p \in PairsOf(A, h) |-> (p[2] - h.lo) * A.n + (p[1] - A.lo)]
Prod(R(_)) == /\ Res.n = A.n * B.n /\ Res.lo = 0
              /\ Rel(Res) \in {R(Row(B)), R(Col(B))}
              /\ \A e \in Res.E : e[3] = 0
Tens(f) == TensorR(A, B, LAMBDA x, y : f[x, y])
Cart(f) == CartR(A, B, LAMBDA x, y : f[x, y])
Pr(k, a, b, x) == CASE k = 0 -> TRUE [] k = 1 -> a < b [] k = 2 -> (a + b) % 2 = 1 [] k = 3 -> x > 1
                    [] k = 4 -> FALSE [] k = 5 -> (a + x) % 2 = 0
Line(es) == LET R == LineR(A, es) IN
            /\ Res.n = Len(es) /\ Res.lo = 0 /\ (\A e \in Res.E : e[3] = 0)
            /\ LET Q == {<<e[1] + 1, e[2] + 1>> : e \in Rel(Res)} IN
               Q = R \/ (Len(es) <= 6 /\ IsoRel(1..Len(es), R, Q))
\* undirected(): the data of an edge is that of one of its orientations
UndirOk == LET U == Gr(FALSE, Ev.res) IN
   /\ Sound(FALSE, Ev.res) /\ U.lo = A.lo /\ U.n = A.n
   /\ Rel(U) = Sym(Keys(A))
   /\ \A e \in U.E : e \in A.E \/ <<e[2], e[1], e[3]>> \in A.E
NextOp ==
  \/ Is("compl") /\ Same /\ Sound(D, Ev.res) /\ Res = Like(A, ComplementR(A))
  \/ Is("power") /\ Same /\ Sound(D, Ev.res) /\ Res = Like(A, PowerR(A, Ev.k))
  \/ Is("trans") /\ Same /\ Sound(D, Ev.res) /\ Res = Like(A, ClosureR(A))
  \/ Is("range") /\ Same /\ Ev.ok = (Ev.from <= Ev.to)
                 /\ (Ev.ok => Sound(D, Ev.res) /\ Res = RangeG(A, Ev.from, Ev.to))
  \/ Is("rev")   /\ Sound(D, Ev.res) /\ Res = ReverseG(A)
  \/ Is("undir") /\ Same /\ UndirOk
  \/ Is("direct") /\ Same /\ Sound(TRUE, Ev.res)
                  /\ Gr(TRUE, Ev.res) = DirectedG(A, LAMBDA a, b, x : Pr(Ev.k, a, b, x))
  \/ Is("tensor") /\ Same /\ Sound(D, Ev.res) /\ Prod(Tens)
  \/ Is("cart")  /\ Same /\ Sound(D, Ev.res) /\ Prod(Cart)
  \/ Is("strong") /\ Same /\ Sound(D, Ev.res) /\ Prod(LAMBDA f : Tens(f) \cup Cart(f))
  \/ Is("line")  /\ Same /\ Sound(D, Ev.res) /\ Line(Ev.a.edges)
  \/ Is("append") /\ Sound(D, Ev.res) /\ Res = AppendG(A, B)
  \/ Is("comb")  /\ Sound(D, Ev.res) /\ Res = Combine(A, B)
  \/ Is("perm")  /\ Sound(D, Ev.res) /\ Res = Map(A, [x \in Verts(A) |-> Ev.p[x - A.lo + 1]])
  \/ Is("rperm") /\ Sound(D, Ev.res) /\ IsoByPerm(A, Res)
  \/ Is("sub")   /\ Same /\ Sound(D, Ev.res) /\ Res.lo = A.lo /\ Res.n = A.n /\ Res.E \subseteq A.E
                 /\ Ev.res.m = Min(Ev.k, Ev.a.m)
TraceSpec == TKInit /\ [][NextOp]_l
============================================================================
