------------------------------ MODULE CanvasMC ------------------------------
(* Machines for the two algorithms against the definitions of Canvas: a     *)
(* flood fill which takes waiting points in any order, and a line drawn by  *)
(* steps of an error term.  Colors are told apart by their red part.        *)
EXTENDS Canvas, TLC
VARIABLES mode, g, a, b, todo, c, err, drawn
CONSTANTS FW, FH, Span
Col(k) == <<k, 0, 0, 255>>
FloodInit == /\ mode = "flood" /\ a \in (0..(FW - 1)) \X (0..(FH - 1)) /\ g \in [1..FH -> [1..FW -> {Col(1), Col(2)}]]
             /\ img = (0 :> [g EXCEPT ![a[2] + 1][a[1] + 1] = Col(9)]) /\ todo = {a} /\ b = a /\ c = a /\ err = 0 /\ drawn = <<>>
LineInit == /\ mode = "line" /\ a \in {<<0, 0>>, <<3, 2>>} /\ b \in {<<a[1] + x, a[2] + y>> : x \in (-Span)..Span, y \in (-Span)..Span}
            /\ g = <<>> /\ img = <<>> /\ todo = {} /\ c = a /\ err = Abs(b[1] - a[1]) - Abs(b[2] - a[2]) /\ drawn = <<a>>
Init == FloodInit \/ LineInit
Old == Px(g, a)
Fill(i, S) == [y \in 1..FH |-> [x \in 1..FW |-> IF <<x - 1, y - 1>> \in S THEN Col(9) ELSE i[y][x]]]
FloodStep == /\ mode = "flood" /\ todo # {}
             /\ \E p \in todo : LET S == {q \in Sides(p) : q \in Points(g) /\ Px(img[0], q) = Old}
                                IN img' = (0 :> Fill(img[0], S)) /\ todo' = (todo \ {p}) \cup S
             /\ UNCHANGED <<mode, g, a, b, c, err, drawn>>
LineStep == /\ mode = "line" /\ c # b
            /\ LET dx == Abs(b[1] - a[1])  dy == -Abs(b[2] - a[2])
                   mx == 2 * err >= dy  my == 2 * err <= dx
               IN /\ err' = err + (IF mx THEN dy ELSE 0) + (IF my THEN dx ELSE 0)
                  /\ c' = <<IF mx THEN c[1] + Sgn(b[1] - a[1]) ELSE c[1], IF my THEN c[2] + Sgn(b[2] - a[2]) ELSE c[2]>>
                  /\ drawn' = Append(drawn, c')
            /\ UNCHANGED <<mode, g, a, b, todo, img>>
Next == FloodStep \/ LineStep
Spec == Init /\ [][Next]_<<mode, g, a, b, todo, c, err, drawn, img>>
Filled == (mode = "flood" /\ todo = {}) => FloodOK(g, img[0], a, "assign", Col(9)) /\ img[0] = Fill(g, Region(g, a))
Near == mode = "line" => /\ Len(drawn) <= Steps(a, b) + 1
                         /\ \A k \in DOMAIN drawn : drawn[k] \in Cands(a, b, k - 1)
                         /\ (c = b => Len(drawn) = Steps(a, b) + 1)
Ends == mode = "line" => Cands(a, b, 0) = {a} /\ Cands(a, b, Steps(a, b)) = {b}
\* colors: interpolation stays between, blending has the neutral cases, the integer formula is within the bounds
Some == {0, 1, 2, 127, 128, 200, 254, 255}
Half(lo, up) == LET al == (lo[4] * (255 - up[4])) \div 255  ar == up[4] + al
                IN [i \in 1..4 |-> IF i = 4 THEN ar ELSE (up[i] * up[4] + lo[i] * al) \div ar]
ASSUME \A x \in Some, y \in Some, la \in Some, ua \in Some \ {0, 255} : BlendOK(<<x, x, x, la>>, <<y, y, y, ua>>, Half(<<x, x, x, la>>, <<y, y, y, ua>>))
ASSUME \A x \in Some, y \in Some, p \in {0, 1, 13, 32, 63, 64} : \A r \in 0..255 :
          LerpOK(<<x, x, x, x>>, <<y, y, y, y>>, p, 64, <<r, r, r, r>>) => (Mn(x, y) <= r /\ r <= Mx(x, y))
ASSUME \A x \in Some, p \in {-64, 0, 1, 32, 64, 65, 1000} : Cardinality({r \in 0..255 : ScaleOK(<<x, x, x, x>>, p, 64, <<r, r, r, r>>)}) \in {1, 2}
=============================================================================
