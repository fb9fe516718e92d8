------------------------------- MODULE Geometry -------------------------------
(* Polygons with integer corners (sequences of <<x, y>>), by definition.      *)
(* Coordinates are at most 2^30 - 1 in absolute value, so differences are     *)
(* ordinary integers; products are compared exactly.                          *)
EXTENDS BigNat
Small0(x) == -20000 < x /\ x < 20000
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
ZProd(a, b) == ZMul(ZInt(a), ZInt(b))
\* sign of a*b - c*d and of a*b + c*d
SgnMinus(a, b, c, d) == IF Small0(a) /\ Small0(b) /\ Small0(c) /\ Small0(d) THEN Sgn(a * b - c * d) ELSE ZCmp(ZProd(a, b), ZProd(c, d))
SgnPlus(a, b, c, d) == IF Small0(a) /\ Small0(b) /\ Small0(c) /\ Small0(d) THEN Sgn(a * b + c * d) ELSE ZCmp(ZProd(a, b), ZProd(-c, d))
\* orientation of c relative to the line from a to b: 1 left, -1 right, 0 on it
Side(a, b, c) == SgnMinus(b[1] - a[1], c[2] - a[2], b[2] - a[2], c[1] - a[1])
Between(a, b, c) == /\ (a[1] <= c[1] /\ c[1] <= b[1]) \/ (b[1] <= c[1] /\ c[1] <= a[1])
                    /\ (a[2] <= c[2] /\ c[2] <= b[2]) \/ (b[2] <= c[2] /\ c[2] <= a[2])
OnSegment(a, b, c) == Between(a, b, c) /\ Side(a, b, c) = 0
\* closed segments ab and cd have a point in common
Touch(a, b, c, d) == \/ OnSegment(a, b, c) \/ OnSegment(a, b, d) \/ OnSegment(c, d, a) \/ OnSegment(c, d, b)
                     \/ Side(a, b, c) * Side(a, b, d) < 0 /\ Side(c, d, a) * Side(c, d, b) < 0
N(p) == Len(p)
C(p, i) == p[((i - 1) % Len(p)) + 1]                        \* corner i, cyclic, from 1
\* edges ab and bc have only b in common
OnlyCorner(a, b, c) == a # b /\ b # c /\ ~(Side(a, b, c) = 0 /\ SgnPlus(a[1] - b[1], c[1] - b[1], a[2] - b[2], c[2] - b[2]) > 0)
Simple(p) == /\ N(p) >= 3
             /\ \A i \in 1..N(p) : OnlyCorner(C(p, i), C(p, i + 1), C(p, i + 2))
             /\ \A i \in 1..N(p), j \in 1..N(p) :
                    (i + 2 <= j /\ ~(i = 1 /\ j = N(p))) => ~Touch(C(p, i), C(p, i + 1), C(p, j), C(p, j + 1))
\* twice the signed area
RECURSIVE AreaFrom(_, _)
AreaFrom(p, i) == IF i = 0 THEN ZInt(0) ELSE ZAdd(ZSub(ZProd(p[i][1], C(p, i + 1)[2]), ZProd(p[i][2], C(p, i + 1)[1])), AreaFrom(p, i - 1))
Area(p) == AreaFrom(p, Len(p))
CCW(p) == LET a == Area(p) IN ~a.s /\ a.m # <<>>
\* a simple polygon which lies to the left of each of its edges
Convex(p) == /\ N(p) >= 3 /\ \A i \in 1..N(p) : p[i] # C(p, i + 1)
             /\ \A i \in 1..N(p), j \in 1..N(p) : Side(p[i], C(p, i + 1), p[j]) >= 0
             /\ CCW(p) /\ Simple(p)
StrictlyConvex(p) == Convex(p) /\ \A i \in 1..N(p) : Side(p[i], C(p, i + 1), C(p, i + 2)) > 0
\* no three points on a line
GeneralPosition(p) == \A i \in 1..N(p), j \in 1..N(p), k \in 1..N(p) : (i < j /\ j < k) => Side(p[i], p[j], p[k]) # 0
===============================================================================
