------------------------------ MODULE GeometryMC ------------------------------
(* All polygons with up to MaxN corners on a small grid.                      *)
(*  - turning: a polygon is convex exactly if no corner turns right or folds  *)
(*    back and the direction changes its half plane exactly twice             *)
(*  - the sweep (Shamos and Hoey) as a machine: end points in order, a list   *)
(*    of the segments crossing the sweep line from bottom to top, and a       *)
(*    comparison of new neighbours only; it ends with the verdict of the      *)
(*    definition for every polygon whose consecutive edges only share corners *)
EXTENDS Geometry, TLC, FiniteSets, SequencesExt
CONSTANTS W, H, MaxN
VARIABLES p, ev, line, verdict
vars == <<p, ev, line, verdict>>
Grid == (0..(W - 1)) \X (0..(H - 1))
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
L(i) == IF Less(C(p, i), C(p, i + 1)) THEN C(p, i) ELSE C(p, i + 1)
Rt(i) == IF Less(C(p, i), C(p, i + 1)) THEN C(p, i + 1) ELSE C(p, i)
Init == p = <<>> /\ ev = 0 /\ line = <<>> /\ verdict = "grow"
Grow == /\ verdict = "grow" /\ Len(p) < MaxN /\ \E q \in Grid : p' = Append(p, q) /\ UNCHANGED <<ev, line, verdict>>
Corners == \A i \in 1..N(p) : OnlyCorner(C(p, i), C(p, i + 1), C(p, i + 2))
Start == /\ verdict = "grow" /\ Len(p) >= 3 /\ Corners /\ verdict' = "sweep" /\ ev' = 1 /\ UNCHANGED <<p, line>>
\* events: <<x, y, 0 insert / 1 remove, edge>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] < b[4])))))
Events == SetToSortSeq({<<L(i)[1], L(i)[2], 0, i>> : i \in 1..N(p)} \cup {<<Rt(i)[1], Rt(i)[2], 1, i>> : i \in 1..N(p)}, Before)
Adjacent(i, j) == i = j \/ (i % N(p)) + 1 = j \/ (j % N(p)) + 1 = i
Hit(i, j) == ~Adjacent(i, j) /\ Touch(L(i), Rt(i), L(j), Rt(j))
\* segment j is below the new segment i, which starts on the sweep line
Below(j, i) == LET s == Side(L(j), Rt(j), L(i)) IN s > 0 \/ (s = 0 /\ (Side(L(j), Rt(j), Rt(i)) > 0 \/ (Side(L(j), Rt(j), Rt(i)) = 0 /\ Less(L(j), L(i)))))
Pos(i) == CHOOSE k \in 1..(Len(line) + 1) : (\A x \in 1..Len(line) : x < k => Below(line[x], i)) /\ (k <= Len(line) => ~Below(line[k], i))
Sweep == /\ verdict = "sweep"
         /\ IF ev > 2 * N(p) THEN verdict' = "simple" /\ UNCHANGED <<p, ev, line>>
            ELSE LET E == Events[ev]  i == E[4] IN
                 IF E[3] = 0
                 THEN LET k == Pos(i) IN
                      /\ line' = SubSeq(line, 1, k - 1) \o <<i>> \o SubSeq(line, k, Len(line))
                      /\ verdict' = (IF (k > 1 /\ Hit(i, line[k - 1])) \/ (k <= Len(line) /\ Hit(i, line[k])) THEN "crossing" ELSE "sweep")
                      /\ ev' = ev + 1 /\ UNCHANGED p
                 ELSE LET k == CHOOSE x \in 1..Len(line) : line[x] = i IN
                      /\ line' = SubSeq(line, 1, k - 1) \o SubSeq(line, k + 1, Len(line))
                      /\ verdict' = (IF k > 1 /\ k < Len(line) /\ Hit(line[k - 1], line[k + 1]) THEN "crossing" ELSE "sweep")
                      /\ ev' = ev + 1 /\ UNCHANGED p
Next == Grow \/ Start \/ Sweep
Spec == Init /\ [][Next]_vars
SweepRight == (verdict = "simple" => Simple(p)) /\ (verdict = "crossing" => ~Simple(p))
\* half planes of the directions
HalfOf(a, b) == IF b[1] = a[1] THEN b[2] < a[2] ELSE b[1] < a[1]
Flips == Cardinality({i \in 1..N(p) : HalfOf(C(p, i), C(p, i + 1)) # HalfOf(C(p, i + 1), C(p, i + 2))})
Turning == (verdict = "grow" /\ N(p) >= 3) =>
    (Convex(p) = (Corners /\ (\A i \in 1..N(p) : Side(C(p, i), C(p, i + 1), C(p, i + 2)) >= 0) /\ Flips = 2))
Laws == (verdict = "grow" /\ N(p) >= 3) =>
    /\ Simple(p) = Simple(Reverse(p)) /\ Area(p) = ZNeg(Area(Reverse(p)))
    /\ Simple(p) => (Area(p) # ZInt(0))
    /\ Convex(p) => (Convex(Append(Tail(p), Head(p))) /\ ~Convex(Reverse(p)))
    /\ N(p) = 3 => (StrictlyConvex(p) = CCW(p) /\ Simple(p) = GeneralPosition(p))
===============================================================================
