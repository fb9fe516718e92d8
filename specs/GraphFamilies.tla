--------------------------- MODULE GraphFamilies ---------------------------
(* The named families: number of vertices, vertices numbered from 0, and    *)
(* the exact arcs (directed) or edges (undirected: any orientation).        *)
EXTENDS GraphAlgebra
Up(n) == 0..(n - 1)
Arcs(S, P(_, _)) == {p \in S \X S : P(p[1], p[2])}
Clique(n)       == [n |-> n, R |-> Arcs(Up(n), LAMBDA a, b : a < b)]
Bip(n, m)       == [n |-> n + m, R |-> Up(n) \X (n..(n + m - 1))]
Star(l)         == Bip(1, l)
PathF(e)        == [n |-> e + 1, R |-> {<<i, i + 1>> : i \in 0..(e - 1)}]
Cycle(n)        == [n |-> n, R |-> {<<i, (i + 1) % n>> : i \in Up(n)}]
Wheel(o)        == [n |-> o + 1, R |-> {<<0, i>> : i \in 1..o} \cup {<<i, (i % o) + 1>> : i \in 1..o}]
Lolly(p, c)     == [n |-> p + c, R |-> {<<i, i + 1>> : i \in 0..(p - 1)} \cup Arcs(p..(p + c - 1), LAMBDA a, b : a < b)]
Broom(p, s)     == [n |-> p + s + 1, R |-> {<<i, i + 1>> : i \in 0..(p - 1)} \cup {<<p, p + i>> : i \in 1..s}]
Grid(n, m)      == [n |-> n * m, R |-> {q \in Up(n * m) \X Up(n * m) :
                      \/ q[2] = q[1] + 1 /\ q[1] % n # n - 1
                      \/ q[2] = q[1] + n}]
Bit(x, i)       == (x \div (2 ^ i)) % 2
Ones(x)         == Cardinality({i \in 0..12 : Bit(x, i) = 1})
Differ(x, y)    == Cardinality({i \in 0..12 : Bit(x, i) # Bit(y, i)})
Cube(d)         == [n |-> 2 ^ d, R |-> Arcs(Up(2 ^ d), LAMBDA a, b : a < b /\ Differ(a, b) = 1)]
\* arcs remove one bit
Lattice(k)      == [n |-> 2 ^ k, R |-> Arcs(Up(2 ^ k), LAMBDA a, b : a > b /\ Differ(a, b) = 1)]
\* arc a -> b iff bit a of b is set (then a < b)
Rado(n)         == [n |-> n, R |-> Arcs(Up(n), LAMBDA a, b : a < b /\ a < 13 /\ Bit(b, a) = 1)]
\* complete c-ary tree with the given number of vertex levels, subtrees consecutive, preorder
RECURSIVE TreeSize(_, _), TreeArcs(_, _, _)
TreeSize(lv, c) == IF lv <= 1 THEN 1 ELSE 1 + c * TreeSize(lv - 1, c)
TreeArcs(root, lv, c) == IF lv <= 1 THEN {} ELSE
   UNION {LET r == root + 1 + i * TreeSize(lv - 1, c) IN {<<root, r>>} \cup TreeArcs(r, lv - 1, c) : i \in 0..(c - 1)}
Tree(lv, c)     == [n |-> TreeSize(lv, c), R |-> TreeArcs(0, lv, c)]
\* the tree of a Pruefer code: repeatedly join the smallest leaf to the next code element
RECURSIVE Prufer(_, _)
Prufer(code, alive) ==
   IF code = <<>> THEN {alive}
   ELSE LET leaf == CHOOSE x \in alive : /\ \A i \in DOMAIN code : code[i] # x
                                         /\ \A y \in alive : y < x => \E i \in DOMAIN code : code[i] = y
        IN {{leaf, code[1]}} \cup Prufer(Tail(code), alive \ {leaf})
\* Ford-Fulkerson worst case: 2n vertices in two chains, nested doubling, in this order
RECURSIVE FFSeq(_, _)
FFSeq(n, k) == IF k = 0 THEN <<<<n - 1, n, 1>>>>
   ELSE LET i == n - 1 - k  j == n + k  c == 2 ^ (k - 1) IN
        FFSeq(n, k - 1) \o <<<<i, i + 1, c>>, <<i, j - 1, c>>, <<i + 1, j, c>>, <<j - 1, j, c>>>>
FF(n) == FFSeq(n, n - 1)
\* value of a maximum flow = minimum cut, by definition over all cuts
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN 0 ELSE Head(s)[3] + SumC(Tail(s))
CutValue(es, S) == SumC(SelectSeq(es, LAMBDA e : e[1] \in S /\ e[2] \notin S))
MinCut(n, es) == LET vals == {CutValue(es, S \cup {0}) : S \in SUBSET (1..(n - 2))}
                 IN CHOOSE v \in vals : \A w \in vals : v <= w
\* Zadeh's min cost flow network; capacities as odd * 2^k (inf = 5/4 * 2^n), costs as 2^k - 1 (logged k)
Cap(i, side) == IF i = 0 THEN (IF side = 0 THEN <<1, 0>> ELSE <<1, 1>>)
                ELSE IF i = 1 THEN (IF side = 0 THEN <<3, 0>> ELSE <<1, 1>>) ELSE <<5, i - 2>>
Inf(n) == IF n = 1 THEN <<1, 1>> ELSE <<5, n - 2>>
MCMF(n) == {<<<<0, i + 1>>, Cap(i, 0), 0>> : i \in Up(n)}
     \cup {<<<<1, n + 1>>, Inf(n), 0>>}
     \cup {<<<<p[1] + 1, p[2] + 1 + n>>, Inf(n), Max(p[1], p[2])>> : p \in {q \in Up(n) \X Up(n) : q[1] # q[2]}}
     \cup {<<<<i + 1 + n, 2 * n + 1>>, Cap(i, 1), 0>> : i \in Up(n)}
============================================================================
