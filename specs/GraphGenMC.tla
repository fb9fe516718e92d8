--------------------------- MODULE GraphGenMC ---------------------------
(* All edit histories on up to N vertices; hist drives the implementation. *)
EXTENDS GraphGen, TLC, Json
CONSTANTS N, MaxLen, Emit
VARIABLES g, hist, ord   \* graph, script, abstract storage order of the edges (swap-with-last removal)
Init == /\ \E d \in BOOLEAN : g = Empty(d, 0, N)
        /\ hist = <<>> /\ ord = <<>>
Rec(op) == hist' = Append(hist, op) /\ (Emit => PrintT("@@" \o ToJson([d |-> g.dir, h |-> hist'])))
Index(s, k) == CHOOSE i \in DOMAIN s : s[i] = k
Add(a, b, x) == /\ CanAdd(g, a, b) /\ g' = AddE(g, a, b, x) /\ Rec(<<0, a, b, x>>)
                /\ ord' = IF HasEdge(g, a, b) THEN ord ELSE Append(ord, Key(g.dir, a, b))
Erase(a, b)  == /\ a \in Verts(g) /\ b \in Verts(g) /\ a # b /\ g' = EraseE(g, a, b) /\ Rec(<<1, a, b, 0>>)
                /\ ord' = IF ~HasEdge(g, a, b) THEN ord
                          ELSE LET i == Index(ord, Key(g.dir, a, b)) IN
                               SubSeq([ord EXCEPT ![i] = ord[Len(ord)]], 1, Len(ord) - 1)
Next == /\ Len(hist) < MaxLen
        /\ \E a, b \in 0..(N - 1) : Erase(a, b) \/ \E x \in {1, 2} : Add(a, b, x)
View == <<g, ord>>
Spec == Init /\ [][Next]_<<g, hist, ord>>
Ok == /\ WellFormed(g) /\ {ord[i] : i \in DOMAIN ord} = Keys(g) /\ Len(ord) = Cardinality(g.E)
      /\ \A a, b \in Verts(g) : ~g.dir => (HasEdge(g, a, b) <=> HasEdge(g, b, a))
      /\ SetMin(SetMin(g, 5), 0) = g
      /\ Combine(g, g) = g
      /\ WellFormed(AppendG(g, g)) /\ Cardinality(AppendG(g, g).E) = 2 * Cardinality(g.E)
LastEdit == [][\A a, b \in Verts(g) : LET op == hist'[Len(hist')] IN
                 Key(g.dir, a, b) # Key(g.dir, op[2], op[3]) =>
                    (HasEdge(g', a, b) <=> HasEdge(g, a, b))]_<<g, hist, ord>>
=========================================================================
