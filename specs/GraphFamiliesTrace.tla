------------------------ MODULE GraphFamiliesTrace ------------------------
EXTENDS GraphFamilies, TraceKit
D == Ev.dir
Gr == [dir |-> D, lo |-> Ev.res.lo, n |-> Ev.res.n,
       E |-> {Edge(D, e[1], e[2], e[3]) : e \in {Ev.res.edges[i] : i \in DOMAIN Ev.res.edges}}]
Matches(F) == /\ Gr.lo = 0 /\ Gr.n = F.n /\ WellFormed(Gr)
              /\ Ev.res.m = Len(Ev.res.edges) /\ Cardinality(Gr.E) = Ev.res.m
              /\ \A e \in Gr.E : e[3] = 0
              /\ Keys(Gr) = IF D THEN F.R ELSE {Key(FALSE, e[1], e[2]) : e \in F.R}
P(i) == Ev.p[i]
Family == CASE Ev.f = "independent" -> [n |-> P(1), R |-> {}]
            [] Ev.f = "clique" -> Clique(P(1))
            [] Ev.f = "bipartite" -> Bip(P(1), P(2))
            [] Ev.f = "star" -> Star(P(1))
            [] Ev.f = "path" -> PathF(P(1))
            [] Ev.f = "cycle" -> Cycle(P(1))
            [] Ev.f = "wheel" -> Wheel(P(1))
            [] Ev.f = "lolly" -> Lolly(P(1), P(2))
            [] Ev.f = "broom" -> Broom(P(1), P(2))
            [] Ev.f = "grid" -> Grid(P(1), P(2))
            [] Ev.f = "hypercube" -> Cube(P(1))
            [] Ev.f = "lattice" -> Lattice(P(1))
            [] Ev.f = "rado" -> Rado(P(1))
            [] Ev.f = "tree" -> Tree(P(1), P(2))
PruferOk == /\ Gr.n = Len(Ev.p) + 2 /\ Gr.lo = 0 /\ WellFormed(Gr) /\ Ev.res.m = Cardinality(Gr.E)
            /\ {{e[1], e[2]} : e \in Gr.E} = Prufer(Ev.p, Up(Gr.n))
FFOk == Ev.n = 2 * Ev.k /\ Ev.edges = FF(Ev.k)
MCMFOk == /\ Ev.n = 2 * Ev.k + 2 /\ Len(Ev.edges) = Cardinality(MCMF(Ev.k))
          /\ {<<<<e[1], e[2]>>, <<e[3], e[4]>>, e[5]>> : e \in {Ev.edges[i] : i \in DOMAIN Ev.edges}} = MCMF(Ev.k)
NextF == \/ Is("fam") /\ Matches(Family)
         \/ Is("pruefer") /\ PruferOk
         \/ Is("ff") /\ FFOk
         \/ Is("mcmf") /\ MCMFOk
         \/ Is("ffbad") /\ Ev.ok = (Ev.k > 0 /\ Ev.k <= 63)
         \/ Is("mcmfbad") /\ Ev.ok = (Ev.k > 0 /\ Ev.k <= 60)
TraceSpec == TKInit /\ [][NextF]_l
============================================================================
