------------------------------- MODULE Canvas -------------------------------
(* Images of RGBA pixels and what drawing does to them.  A color is a tuple *)
(* of four bytes, an image a sequence of rows; points are 0-based <<x, y>>. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES img        \* handle -> image
Abs(x) == IF x < 0 THEN -x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a
Clamp(x) == Mx(0, Mn(255, x))
\* colors
AddC(a, b) == [i \in 1..4 |-> Clamp(a[i] + b[i])]
SubC(a, b) == [i \in 1..4 |-> Clamp(a[i] - b[i])]
\* x rounds the fraction n / d, d > 0
Rounds(x, n, d) == 2 * Abs(x * d - n) <= d
ScaleOK(c, p, q, r) == \A i \in 1..4 : IF c[i] * p < 0 THEN r[i] = 0 ELSE IF c[i] * p > 255 * q THEN r[i] = 255 ELSE Rounds(r[i], c[i] * p, q)
LerpOK(a, b, p, q, r) == \A i \in 1..4 : Rounds(r[i], a[i] * p + b[i] * (q - p), q)
\* upper on top of lower: alpha ua + la (1 - ua), parts weighted by their alphas, up to the rounding of integer divisions
BlendOK(lo, up, r) ==
   IF up[4] = 255 THEN r = up ELSE IF up[4] = 0 THEN r = lo ELSE
   LET wu == 255 * up[4]
       wl == lo[4] * (255 - up[4])
       d == wu + wl
   IN /\ Abs(255 * r[4] - d) < 255
      /\ \A i \in 1..3 : /\ Mn(lo[i], up[i]) <= r[i] /\ r[i] <= Mx(lo[i], up[i])
                         /\ Abs(r[i] * d - (up[i] * wu + lo[i] * wl)) <= d + 255 * Abs(up[i] - lo[i])
CombOK(m, lo, up, r) == CASE m = "assign" -> r = up [] m = "blend" -> BlendOK(lo, up, r) [] m = "add" -> r = AddC(lo, up) [] m = "subtract" -> r = SubC(lo, up)
\* images
W(g) == IF g = <<>> THEN 0 ELSE Len(g[1])
H(g) == Len(g)
Px(g, p) == g[p[2] + 1][p[1] + 1]
Points(g) == (0..(W(g) - 1)) \X (0..(H(g) - 1))
Blank(w, h, c) == [y \in 1..h |-> [x \in 1..w |-> c]]
SameShape(g, n) == Len(g) = Len(n) /\ \A y \in DOMAIN g : Len(n[y]) = Len(g[y])
\* n is g with the points of P combined with c
PaintOK(g, n, P, m, c) == SameShape(g, n) /\ \A p \in Points(g) : IF p \in P THEN CombOK(m, Px(g, p), c, Px(n, p)) ELSE Px(n, p) = Px(g, p)
RectOK(g, n, a, b, m, border, fill) ==
   LET x0 == Mn(a[1], b[1])  x1 == Mx(a[1], b[1])  y0 == Mn(a[2], b[2])  y1 == Mx(a[2], b[2])
   IN /\ SameShape(g, n)
      /\ \A p \in Points(g) :
            IF p[1] < x0 \/ p[1] > x1 \/ p[2] < y0 \/ p[2] > y1 THEN Px(n, p) = Px(g, p)
            ELSE CombOK(m, Px(g, p), IF p[1] \in {x0, x1} \/ p[2] \in {y0, y1} THEN border ELSE fill, Px(n, p))
\* flood fill: the pixels connected through sides with pixels of the same color
Sides(p) == {<<p[1] + 1, p[2]>>, <<p[1] - 1, p[2]>>, <<p[1], p[2] + 1>>, <<p[1], p[2] - 1>>}
RECURSIVE Grow(_, _, _)
Grow(g, R, F) == LET N == {q \in UNION {Sides(p) : p \in F} : q \in Points(g) /\ q \notin R /\ Px(g, q) = Px(g, CHOOSE p \in R : TRUE)}
                 IN IF N = {} THEN R ELSE Grow(g, R \cup N, N)
Region(g, a) == Grow(g, {a}, {a})
FloodOK(g, n, a, m, c) == PaintOK(g, n, Region(g, a), m, c)
\* a line: for every step along the longer side the pixel nearest to it, either one in the middle
Steps(a, b) == Mx(Abs(b[1] - a[1]), Abs(b[2] - a[2]))
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Cands(a, b, k) ==
   LET dx == b[1] - a[1]  dy == b[2] - a[2]  n == Steps(a, b)
       near(d) == IF n = 0 THEN {0} ELSE {j \in {(k * Abs(d)) \div n, ((k * Abs(d)) \div n) + 1} : 2 * Abs(j * n - k * Abs(d)) <= n}
   IN IF Abs(dx) >= Abs(dy) THEN {<<a[1] + k * Sgn(dx), a[2] + j * Sgn(dy)>> : j \in near(dy)}
      ELSE {<<a[1] + j * Sgn(dx), a[2] + k * Sgn(dy)>> : j \in near(dx)}
LineOK(g, n, a, b, m, c) ==
   LET K == 0..Steps(a, b)
       P == UNION {Cands(a, b, k) : k \in K}
   IN /\ SameShape(g, n)
      /\ \A p \in Points(g) \ P : Px(n, p) = Px(g, p)
      /\ \A k \in K : \E p \in Cands(a, b, k) : /\ CombOK(m, Px(g, p), c, Px(n, p))
                                                /\ \A q \in Cands(a, b, k) \ {p} : Px(n, q) = Px(g, q)
\* actions
Put(h, g) == img' = [x \in DOMAIN img \cup {h} |-> IF x = h THEN g ELSE img[x]]
Clear(h, w, hh, c) == Put(h, Blank(w, hh, c))
SetPixel(h, p, c) == Put(h, [img[h] EXCEPT ![p[2] + 1][p[1] + 1] = c])
Rect(h, n, a, b, m, border, fill) == RectOK(img[h], n, a, b, m, border, fill) /\ Put(h, n)
Flood(h, n, a, m, c) == FloodOK(img[h], n, a, m, c) /\ Put(h, n)
Line(h, n, a, b, m, c) == LineOK(img[h], n, a, b, m, c) /\ Put(h, n)
============================================================================
