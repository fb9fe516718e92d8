-------------------------- MODULE GraphAlgebraMC --------------------------
(* Laws relating the definitions, on all graphs with up to N vertices.      *)
EXTENDS GraphAlgebra, TLC
CONSTANT N
VARIABLES g, h
All(d, n) == LET P == {p \in (0..(n-1)) \X (0..(n-1)) : p[1] # p[2] /\ (d \/ p[1] < p[2])}
             IN {[dir |-> d, lo |-> 0, n |-> n, E |-> {<<e[1], e[2], 0>> : e \in S}] : S \in SUBSET P}
Init == \E d \in BOOLEAN, n \in 0..N, k \in 0..2 : g \in All(d, n) /\ h \in All(d, k)
Next == UNCHANGED <<g, h>>
Spec == Init /\ [][Next]_<<g, h>>
Nm(x, y) == x * h.n + y
T == TensorR(g, h, Nm)
C == CartR(g, h, Nm)
Laws ==
  /\ Like(g, ComplementR(Like(g, ComplementR(g)))) = g
  /\ PowerR(g, 1) = Rel(g) /\ PowerR(g, 0) = {}
  /\ PowerR(g, g.n) = ClosureR(g)
  /\ PowerR(Like(g, PowerR(g, 2)), 2) = PowerR(g, 4)
  /\ (g.dir => ReverseG(ReverseG(g)) = g)
  /\ Rel(RangeG(g, 0, g.n)) = Rel(g)
  /\ T \cap C = {}
  /\ Cardinality(T) = Cardinality(Rel(g)) * Cardinality(Rel(h))
  /\ Cardinality(C) = g.n * Cardinality(Rel(h)) + h.n * Cardinality(Rel(g))
  /\ (~g.dir => LET D == DirectedG(g, LAMBDA a, b, x : TRUE) IN
                  Keys(D) = Rel(g) /\ \A e \in Keys(D) : <<e[2], e[1]>> \in Keys(D))
  /\ LET A == AppendG(g, h) IN WellFormed(A) /\ RangeG(A, 0, g.n) = g /\ Shift(RangeG(A, g.n, g.n + h.n), -g.n) = h
===========================================================================
