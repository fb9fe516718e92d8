---------------------------- MODULE GeometryTrace ----------------------------
EXTENDS Geometry, TraceKit
vars == <<l>>
TInit == TKInit
Limit == 1073741823
Pts(xs, ys) == [i \in DOMAIN xs |-> <<xs[i], ys[i]>>]
Code(b) == IF b THEN 1 ELSE 0
Verdicts(p) == Code(Convex(p)) + 2 * Code(StrictlyConvex(p)) + 4 * Code(Simple(p)) + 8 * Code(N(p) >= 2 /\ CCW(p))
\* one polygon; res holds the four answers as bits, for every point type and both call forms
PolyEv == Is("poly") /\ LET v == Verdicts(Pts(Ev.x, Ev.y)) IN \A i \in DOMAIN Ev.res : Ev.res[i] = v
\* a base polygon and all ways to add one or two corners from a w x h grid
GridEv == Is("grid") /\ LET b == Pts(Ev.x, Ev.y)
                            g(k) == <<k % Ev.w, k \div Ev.w>>
                            s == Ev.w * Ev.h
                        IN \A i \in DOMAIN Ev.res : Ev.res[i] = Verdicts(IF Ev.add = 1 THEN Append(b, g(i - 1))
                                                                           ELSE b \o <<g((i - 1) \div s), g((i - 1) % s)>>)
\* too large coordinates (text): refused by all four
Abs(x) == x.m
BoundsEv == Is("bounds") /\ LET big == \E i \in DOMAIN Ev.x : Lt(Nat1(Limit), Abs(ZFrom(Ev.x[i]))) \/ Lt(Nat1(Limit), Abs(ZFrom(Ev.y[i])))
                            IN \A i \in DOMAIN Ev.codes : Ev.codes[i] = IF big THEN -1 ELSE 0
\* products of points, through every point type: cross(a,b), dot(a,b), cross(p,a,b); accessors; conversions
ZI(t) == ZFrom(t)
ZX(a, b) == ZSub(ZMul(a[1], b[2]), ZMul(a[2], b[1]))
ZD(a, b) == ZAdd(ZMul(a[1], b[1]), ZMul(a[2], b[2]))
ZS(a, b) == <<ZSub(a[1], b[1]), ZSub(a[2], b[2])>>
ProdEv == Is("prod") /\ LET p == <<ZI(Ev.p[1]), ZI(Ev.p[2])>>
                            a == <<ZI(Ev.a[1]), ZI(Ev.a[2])>>
                            b == <<ZI(Ev.b[1]), ZI(Ev.b[2])>>
                        IN /\ ZI(Ev.cross) = ZX(a, b) /\ ZI(Ev.dot) = ZD(a, b) /\ ZI(Ev.cross3) = ZX(ZS(a, p), ZS(b, p))
                           /\ ZI(Ev.gx) = a[1] /\ ZI(Ev.gy) = a[2] /\ (Ev.gz # <<>> => ZI(Ev.gz) = b[1])
                           \* writing through the accessors exchanges the coordinates; the arguments of cross are unchanged
                           /\ ZI(Ev.sx) = a[2] /\ ZI(Ev.sy) = a[1] /\ Ev.kept
                           /\ (Ev.conv # <<>> => (ZI(Ev.conv[1]) = a[1] /\ ZI(Ev.conv[2]) = a[2]))
\* random convex polygons fill the square; random points in general position
Mn(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x <= s[i]
Mx(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
HullEv == Is("hull") /\ IF ~ (Ev.dim \in 1..Limit /\ 3 <= Ev.n /\ (Ev.dim < 100000 => Ev.n <= 8 * Ev.dim - 8)) THEN Ev.code = -1
                        ELSE /\ Ev.code = 0 /\ Len(Ev.x) = Ev.n /\ Len(Ev.y) = Ev.n /\ Convex(Pts(Ev.x, Ev.y))
                             /\ \A s \in {Ev.x, Ev.y} : Mn(s) = 1 - Ev.dim /\ Mx(s) = Ev.dim - 1
PointsEv == Is("points") /\ IF ~ (Ev.n >= 0 /\ Ev.n < Ev.dim /\ Ev.dim <= 536870911) THEN Ev.code = -1
                            ELSE /\ Ev.code = 0 /\ Len(Ev.x) = Ev.n /\ Len(Ev.y) = Ev.n
                                 /\ \A i \in 1..Ev.n : -Ev.dim < Ev.x[i] /\ Ev.x[i] < Ev.dim /\ -Ev.dim < Ev.y[i] /\ Ev.y[i] < Ev.dim
                                 /\ (Ev.n = 2 => Pts(Ev.x, Ev.y)[1] # Pts(Ev.x, Ev.y)[2]) /\ GeneralPosition(Pts(Ev.x, Ev.y))
Next == PolyEv \/ GridEv \/ BoundsEv \/ ProdEv \/ HullEv \/ PointsEv
TraceSpec == TInit /\ [][Next]_vars
============================================================================
