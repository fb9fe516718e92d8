-------------------------- MODULE GraphGenTrace --------------------------
EXTENDS GraphGen, TraceKit
VARIABLE gs          \* registers holding graphs
TInit == TKInit /\ gs = <<>>
Set(s) == {s[i] : i \in DOMAIN s}
R == Ev.g
G == gs[R]
Upd(r, v) == gs' = [gs EXCEPT ![r] = v]
EdgesOf(d, s) == {Edge(d, s[i][1], s[i][2], s[i][3]) : i \in DOMAIN s}
\* a complete observation of a graph
Listed == EdgesOf(G.dir, Ev.edges)
Obs == /\ Ev.lo = G.lo /\ Ev.next = G.lo + G.n /\ Ev.n = G.n /\ Ev.size = G.n
       /\ Ev.m = Cardinality(G.E)
       /\ Len(Ev.edges) = Ev.m /\ Listed = G.E                   \* getEdges
       /\ Len(Ev.ids) = Ev.m /\ EdgesOf(G.dir, Ev.ids) = G.E     \* getEdgeById
       /\ Ev.text = <<<<G.n, Ev.m>>>> \o Ev.edges                \* stream output, same order as getEdges
       /\ Ev.otext = Ev.text
       /\ \A x \in Verts(G) : LET i == x - G.lo + 1  s == Succ(Rel(G), x) IN
            /\ Ev.deg[i] = Cardinality(s) /\ Ev.degs[i] = Cardinality(s)
            /\ Len(Ev.adj[i]) = Cardinality(s)
            /\ \A k \in DOMAIN Ev.adj[i] : LET e == Ev.adj[i][k] IN
                 e[1] = x /\ Edge(G.dir, e[1], e[2], e[3]) \in G.E
            /\ {Ev.adj[i][k][2] : k \in DOMAIN Ev.adj[i]} = s
       /\ {Pair(p) : p \in Set(Ev.has)} = Rel(G)
       /\ {<<p[1], p[2], p[3]>> : p \in Set(Ev.find)} = {<<p[1], p[2], DataOf(G, p[1], p[2])>> : p \in Rel(G)}
       /\ Ev.cfind = Ev.find
Perm(s) == [x \in Verts(G) |-> s[x - G.lo + 1]]
InRange(a) == a \in Verts(G)
H == [G EXCEPT !.E = EdgesOf(G.dir, Ev.edges)]    \* graph as logged after the call
Next ==
  \/ Is("new")   /\ gs' = [r \in 1..3 |-> Empty(Ev.dir, 0, 0)]
  \/ Is("make")  /\ IF Ev.ok THEN Ev.a <= Ev.b /\ Upd(R, Empty(G.dir, Ev.a, Ev.b - Ev.a)) ELSE Ev.a > Ev.b /\ UNCHANGED gs
  \/ Is("add")   /\ Ev.ok = CanAdd(G, Ev.a, Ev.b)
                 /\ (Ev.ok => Ev.ret = <<Ev.a, Ev.b, Ev.x>>)
                 /\ IF Ev.ok THEN Upd(R, AddE(G, Ev.a, Ev.b, Ev.x)) ELSE UNCHANGED gs
  \/ Is("erase") /\ Ev.ok = (InRange(Ev.a) /\ InRange(Ev.b))
                 /\ (Ev.ok => Ev.ret = HasEdge(G, Ev.a, Ev.b))
                 /\ IF Ev.ok /\ Ev.ret THEN Upd(R, EraseE(G, Ev.a, Ev.b)) ELSE UNCHANGED gs
  \/ Is("probe") /\ Ev.ok = (InRange(Ev.a) /\ InRange(Ev.b)) /\ Ev.ok1 = InRange(Ev.a)
                 /\ (Ev.ok => Ev.ret = HasEdge(G, Ev.a, Ev.b)) /\ UNCHANGED gs
  \/ Is("byid")  /\ Ev.ok = (0 <= Ev.a /\ Ev.a < Cardinality(G.E)) /\ UNCHANGED gs
  \/ Is("set")   /\ HasEdge(G, Ev.a, Ev.b) /\ Upd(R, AddE(G, Ev.a, Ev.b, Ev.x))  \* write through a reference
  \/ Is("setall") /\ Upd(R, [G EXCEPT !.E = {<<e[1], e[2], Ev.x>> : e \in @}])
  \/ Is("setadj") /\ Upd(R, [G EXCEPT !.E = {IF e[1] = Ev.a \/ (~G.dir /\ e[2] = Ev.a) THEN <<e[1], e[2], Ev.x>> ELSE e : e \in @}])
  \/ Is("minid") /\ Upd(R, SetMin(G, Ev.x))
  \/ Is("copy")  /\ Upd(R, gs[Ev.o])
  \/ Is("comb")  /\ Upd(R, Combine(G, gs[Ev.o]))
  \/ Is("app")   /\ Upd(R, AppendG(G, gs[Ev.o]))
  \/ Is("rev")   /\ G.dir /\ Upd(R, ReverseG(G))
  \/ Is("pedges") /\ UNCHANGED gs
  \/ Is("perm")  /\ IF Ev.ok THEN /\ Len(Ev.p) = G.n /\ Set(Ev.p) = Verts(G)
                                  /\ Upd(R, Map(G, Perm(Ev.p)))
                    ELSE ~(Len(Ev.p) = G.n /\ Set(Ev.p) = Verts(G)) /\ UNCHANGED gs
  \/ Is("rperm") /\ IsoByPerm(G, H) /\ Upd(R, H)
  \/ Is("obs")   /\ Obs /\ UNCHANGED gs
TraceSpec == TInit /\ [][Next]_<<gs, l>>
==========================================================================
