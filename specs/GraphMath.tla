---------------------------- MODULE GraphMath ----------------------------
(* Textbook definitions over finite relations E (sets of ordered pairs).   *)
(* Undirected graphs are represented by symmetric relations.               *)
EXTENDS Integers, Sequences, FiniteSets

Pair(e)     == <<e[1], e[2]>>
Inv(E)      == {<<e[2], e[1]>> : e \in E}
Sym(E)      == E \cup Inv(E)
Succ(E, x)  == {e[2] : e \in {f \in E : f[1] = x}}
Pred(E, x)  == {e[1] : e \in {f \in E : f[2] = x}}

\* all y reachable from the set S (S included)
RECURSIVE Close(_, _)
Close(E, S) == LET T == S \cup {e[2] : e \in {f \in E : f[1] \in S}}
               IN IF T = S THEN S ELSE Close(E, T)
Reach(E, x) == Close(E, {x})
\* reachable by a walk of length at least one
Reach1(E, x) == Close(E, Succ(E, x))
\* all y at distance at most k
RECURSIVE Ball(_, _, _)
Ball(E, S, k) == IF k = 0 THEN S ELSE Ball(E, S \cup UNION {Succ(E, x) : x \in S}, k - 1)

Components(V, E) == {Reach(Sym(E), x) : x \in V}
Acyclic(V, E)    == \A x \in V : x \notin Reach1(E, x)
Bipartite(V, E)  == \E S \in SUBSET V : \A e \in E : (e[1] \in S) # (e[2] \in S)
SeqSet(s)        == {s[i] : i \in DOMAIN s}
IsOrder(V, s)    == Len(s) = Cardinality(V) /\ SeqSet(s) = V
Topological(V, E, s) == IsOrder(V, s) /\
    \A i, j \in DOMAIN s : <<s[i], s[j]>> \in E => i < j
=========================================================================
