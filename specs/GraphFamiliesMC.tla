-------------------------- MODULE GraphFamiliesMC --------------------------
(* Facts every family must satisfy (counts, degrees, connectivity), checked *)
(* on the definitions themselves.                                           *)
EXTENDS GraphFamilies, TLC
CONSTANT K
VARIABLES a, b
Init == a \in 0..K /\ b \in 1..K
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Deg(F, x) == Cardinality({e \in Sym(F.R) : e[1] = x})
Conn(F) == F.n > 0 => Reach(Sym(F.R), 0) = Up(F.n)
M(F) == Cardinality(F.R)
IsTreeF(F) == Conn(F) /\ M(F) = F.n - 1
Facts ==
  /\ M(Clique(a)) = (a * (a - 1)) \div 2
  /\ \A x \in Up(a) : Deg(Clique(a), x) = a - 1
  /\ M(Bip(a, b)) = a * b /\ Bipartite(Up(a + b), Sym(Bip(a, b).R))
  /\ IsTreeF(Star(a)) /\ IsTreeF(PathF(a)) /\ IsTreeF(Broom(a, b))
  /\ (b >= 3 => Conn(Cycle(b)) /\ M(Cycle(b)) = b /\ \A x \in Up(b) : Deg(Cycle(b), x) = 2)
  /\ (b >= 3 => M(Wheel(b)) = 2 * b /\ Deg(Wheel(b), 0) = b /\ \A x \in 1..b : Deg(Wheel(b), x) = 3)
  /\ Conn(Lolly(a, b)) /\ M(Lolly(a, b)) = a + (b * (b - 1)) \div 2
  /\ (a >= 1 => Conn(Grid(a, b)) /\ M(Grid(a, b)) = a * (b - 1) + b * (a - 1))
  /\ Conn(Cube(a)) /\ \A x \in Up(2 ^ a) : Deg(Cube(a), x) = a
  /\ {{e[1], e[2]} : e \in Cube(a).R} = {{e[1], e[2]} : e \in Lattice(a).R}
  /\ \A e \in Rado(a).R : e[1] < e[2]
  /\ IsTreeF(Tree(a, b)) /\ Acyclic(Up(Tree(a, b).n), Tree(a, b).R)
  /\ (b <= 4 => MinCut(2 * b, FF(b)) = 2 ^ (b - 1))
  /\ Len(FF(b)) = 4 * b - 3
  /\ Cardinality(MCMF(b)) = b * b + b + 1 + (IF b >= 1 THEN 0 ELSE 1)
\* Pruefer codes enumerate the labelled trees one to one (Cayley)
Cayley == \A n \in 2..5 : n <= K =>
   LET T(c) == Prufer(c, Up(n))  Codes == [1..(n - 2) -> Up(n)] IN
   /\ Cardinality({T(c) : c \in Codes}) = Cardinality(Codes)
   /\ \A c \in Codes : /\ Cardinality(T(c)) = n - 1
                       /\ Reach(UNION {{<<x, y>> : x, y \in s} : s \in T(c)}, 0) = Up(n)
============================================================================
