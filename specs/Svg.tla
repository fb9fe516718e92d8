-------------------------------- MODULE Svg --------------------------------
(* Images made of shapes.  Coordinates are integers (64ths of a unit).  An  *)
(* image is the sequence of what was shifted into it and a box which grows  *)
(* with every shape; its file is an XML document with one element for every *)
(* shape, y pointing upwards, and the box as view box.                      *)
EXTENDS Xml, BigNat, FiniteSets
VARIABLES pic,        \* handle -> [n |-> file (-1: none), items, box |-> <<x, y, width, height>>]
          files       \* file -> [items, box]
Rect == <<114, 101, 99, 116>>
Circ == <<99, 105, 114, 99, 108, 101>>
Elli == <<101, 108, 108, 105, 112, 115, 101>>
LineN == <<108, 105, 110, 101>>
Polyg == <<112, 111, 108, 121, 103, 111, 110>>
Polyl == <<112, 111, 108, 121, 108, 105, 110, 101>>
SvgN == <<115, 118, 103>>
KX == <<120>>
KY == <<121>>
KW == <<119, 105, 100, 116, 104>>
KH == <<104, 101, 105, 103, 104, 116>>
KR == <<114>>
KCx == <<99, 120>>
KCy == <<99, 121>>
KRx == <<114, 120>>
KRy == <<114, 121>>
KX1 == <<120, 49>>
KY1 == <<121, 49>>
KX2 == <<120, 50>>
KY2 == <<121, 50>>
KPts == <<112, 111, 105, 110, 116, 115>>
KStroke == <<115, 116, 114, 111, 107, 101>>
KFill == <<102, 105, 108, 108>>
KSw == <<115, 116, 114, 111, 107, 101, 45, 119, 105, 100, 116, 104>>
KCap == <<115, 116, 114, 111, 107, 101, 45, 108, 105, 110, 101, 99, 97, 112>>
KJoin == <<115, 116, 114, 111, 107, 101, 45, 108, 105, 110, 101, 106, 111, 105, 110>>
KVe == <<118, 101, 99, 116, 111, 114, 45, 101, 102, 102, 101, 99, 116>>
VNone == <<110, 111, 110, 101>>
VNon == <<110, 111, 110, 45, 115, 99, 97, 108, 105, 110, 103, 45, 115, 116, 114, 111, 107, 101>>
Butt == <<98, 117, 116, 116>>
Round == <<114, 111, 117, 110, 100>>
Square == <<115, 113, 117, 97, 114, 101>>
Bevel == <<98, 101, 118, 101, 108>>
Miter == <<109, 105, 116, 101, 114>>
KVer == <<118, 101, 114, 115, 105, 111, 110>>
KEnc == <<101, 110, 99, 111, 100, 105, 110, 103>>
KNs == <<120, 109, 108, 110, 115>>
KVb == <<118, 105, 101, 119, 66, 111, 120>>
VNs == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 50, 48, 48, 48, 47, 115, 118, 103>>
V10 == <<49, 46, 48>>
Utf8 == <<85, 84, 70, 45, 56>>
utf8 == <<117, 116, 102, 45, 56>>
\* numbers of the document
Digits == 48..57
IndexOf(t, S) == {i \in DOMAIN t : t[i] \in S}
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE IntOf(_, _, _)
IntOf(t, i, acc) == IF i > Len(t) THEN acc ELSE IntOf(t, i + 1, 10 * acc + (t[i] - 48))
\* decimal text as [m |-> integer, e |-> power of ten], ok |-> whether it is one
NumberOf(t0) ==
   LET neg == t0 # <<>> /\ t0[1] = 45
       t == IF neg \/ (t0 # <<>> /\ t0[1] = 43) THEN SubSeq(t0, 2, Len(t0)) ELSE t0
       es == IndexOf(t, {69, 101})
       man == IF es = {} THEN t ELSE SubSeq(t, 1, MinOf(es) - 1)
       ex0 == IF es = {} THEN <<48>> ELSE SubSeq(t, MinOf(es) + 1, Len(t))
       exneg == ex0 # <<>> /\ ex0[1] = 45
       ex == IF exneg \/ (ex0 # <<>> /\ ex0[1] = 43) THEN SubSeq(ex0, 2, Len(ex0)) ELSE ex0
       dots == IndexOf(man, {46})
       frac == IF dots = {} THEN <<>> ELSE SubSeq(man, MinOf(dots) + 1, Len(man))
       whole == IF dots = {} THEN man ELSE SubSeq(man, 1, MinOf(dots) - 1)
       ds == whole \o frac
   IN IF ds = <<>> \/ ex = <<>> \/ Len(ex) > 4 \/ (\E i \in DOMAIN ds : ds[i] \notin Digits) \/ (\E j \in DOMAIN ex : ex[j] \notin Digits)
      THEN [ok |-> FALSE, m |-> ZInt(0), e |-> 0]
      ELSE [ok |-> TRUE, m |-> Z(neg, FromDigits(ds)), e |-> (IF exneg THEN -1 ELSE 1) * IntOf(ex, 1, 0) - Len(frac)]
P10(n) == Pow10(n)
\* the number is k / 64 with a relative error of at most 5 / 10^6, or (abs) an error of at most 1 / 10^6
NumOK(t, k, abs) ==
   LET v == NumberOf(t)
       L == ZMul(v.m, ZNat(Mul(FromDigits(<<54, 52>>), IF v.e > 0 THEN P10(v.e) ELSE <<1>>)))
       u == IF v.e < 0 THEN P10(-v.e) ELSE <<1>>
       K == ZMul(ZInt(k), ZNat(u))
       diff == MulSmall(ZSub(L, K).m, 1000000)
   IN v.ok /\ v.e \in -60..60 /\ (Le(diff, MulSmall(K.m, 5)) \/ (abs /\ Le(diff, MulSmall(u, 64))))
\* splits at blanks and commas
RECURSIVE Split(_, _, _, _)
Split(t, i, cur, acc) == IF i > Len(t) THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
    ELSE IF t[i] \in XSpace \cup {44} THEN Split(t, i + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
    ELSE Split(t, i + 1, Append(cur, t[i]), acc)
Words(t) == Split(t, 1, <<>>, <<>>)
Hex(n) == IF n < 10 THEN {48 + n} ELSE {55 + n, 87 + n}
ColorOK(t, c) == Len(t) = 7 /\ t[1] = 35 /\ \A i \in 1..3 : t[2 * i] \in Hex(c[i] \div 16) /\ t[2 * i + 1] \in Hex(c[i] % 16)
Caps == <<Butt, Round, Square>>
Joins == <<Round, Bevel, Miter>>
\* what has to be written for a shape [s, v, pts, stroke, fill]; stroke is <<>> or << [c, w, cap, join, scale] >>, fill <<>> or << color >>
StrokeKeys(s) == {KStroke} \cup (IF s.stroke = <<>> THEN {} ELSE {KSw} \cup (IF s.stroke[1].cap = 0 THEN {} ELSE {KCap}) \cup (IF s.stroke[1].join = 0 THEN {} ELSE {KJoin}) \cup (IF s.stroke[1].scale THEN {} ELSE {KVe}))
StyleOK(it, s) ==
   /\ IF s.stroke = <<>> THEN Attr(it, KStroke) = VNone
      ELSE LET k == s.stroke[1] IN /\ ColorOK(Attr(it, KStroke), k.c) /\ NumOK(Attr(it, KSw), k.w, FALSE) /\ (k.cap # 0 => Attr(it, KCap) = Caps[k.cap])
                                   /\ (k.join # 0 => Attr(it, KJoin) = Joins[k.join]) /\ (~k.scale => Attr(it, KVe) = VNon)
   /\ IF s.fill = <<>> THEN Attr(it, KFill) = VNone ELSE ColorOK(Attr(it, KFill), s.fill[1])
Geo(s) == CASE s.s = "rect" -> << <<KX, s.v[1]>>, <<KY, -(s.v[2] + s.v[4])>>, <<KW, s.v[3]>>, <<KH, s.v[4]>> >>
            [] s.s = "circle" -> << <<KCx, s.v[1]>>, <<KCy, -s.v[2]>>, <<KR, s.v[3]>> >>
            [] s.s = "ellipse" -> << <<KCx, s.v[1]>>, <<KCy, -s.v[2]>>, <<KRx, s.v[3]>>, <<KRy, s.v[4]>> >>
            [] s.s = "line" -> << <<KX1, s.v[1]>>, <<KY1, -s.v[2]>>, <<KX2, s.v[3]>>, <<KY2, -s.v[4]>> >>
            [] OTHER -> <<>>
ElName(s) == CASE s.s = "rect" -> Rect [] s.s = "circle" -> Circ [] s.s = "ellipse" -> Elli [] s.s = "line" -> LineN [] s.s = "polygon" -> Polyg [] s.s = "polyline" -> Polyl
IsPoly(s) == s.s \in {"polygon", "polyline"}
ShapeOK(it, s) ==
   /\ it.k = "el" /\ it.name = ElName(s)
   /\ Names(it.attrs) = {Geo(s)[i][1] : i \in DOMAIN Geo(s)} \cup (IF IsPoly(s) THEN {KPts} ELSE {}) \cup StrokeKeys(s) \cup {KFill}
   /\ \A i \in DOMAIN Geo(s) : NumOK(Attr(it, Geo(s)[i][1]), Geo(s)[i][2], FALSE)
   /\ IsPoly(s) => LET w == Words(Attr(it, KPts)) IN Len(w) = 2 * Len(s.pts) /\ \A i \in DOMAIN s.pts : NumOK(w[2 * i - 1], s.pts[i][1], FALSE) /\ NumOK(w[2 * i], -s.pts[i][2], FALSE)
   /\ StyleOK(it, s)
RECURSIVE TrimL(_)
TrimL(t) == IF t # <<>> /\ t[1] = 32 THEN TrimL(SubSeq(t, 2, Len(t))) ELSE t
RECURSIVE TrimR(_)
TrimR(t) == IF t # <<>> /\ t[Len(t)] = 32 THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
ItemOK(it, s) == IF s.s = "comment" THEN it.k = "comment" /\ TrimL(TrimR(it.text)) = s.v ELSE ShapeOK(it, s)
\* the whole file
DeclOK(it) == it.k = "decl" /\ Attr(it, KVer) = V10 /\ (KEnc \in Names(it.attrs) => Attr(it, KEnc) \in {Utf8, utf8})
RootOK(it, box) == /\ it.k = "el" /\ it.name = SvgN /\ it.depth = 0 /\ {KNs, KVb} \subseteq Names(it.attrs) /\ Attr(it, KNs) = VNs
                   /\ LET w == Words(Attr(it, KVb)) IN Len(w) = 4 /\ NumOK(w[1], box[1], TRUE) /\ NumOK(w[2], -(box[2] + box[4]), TRUE) /\ NumOK(w[3], box[3], TRUE) /\ NumOK(w[4], box[4], TRUE)
FileOK(x, f) == /\ Complete(x) /\ Len(x.out) = Len(f.items) + 2 /\ DeclOK(x.out[1]) /\ RootOK(x.out[2], f.box)
                /\ \A i \in DOMAIN f.items : x.out[i + 2].depth = 1 /\ ItemOK(x.out[i + 2], f.items[i])
\* the box
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a
Include(b, p) == LET x == Mn(b[1], p[1])  y == Mn(b[2], p[2]) IN <<x, y, Mx(b[1] + b[3], p[1]) - x, Mx(b[2] + b[4], p[2]) - y>>
Corners(s) == CASE s.s = "rect" -> << <<s.v[1], s.v[2]>>, <<s.v[1] + s.v[3], s.v[2] + s.v[4]>> >>
                [] s.s = "circle" -> << <<s.v[1] - s.v[3], s.v[2] - s.v[3]>>, <<s.v[1] + s.v[3], s.v[2] + s.v[3]>> >>
                [] s.s = "ellipse" -> << <<s.v[1] - s.v[3], s.v[2] - s.v[4]>>, <<s.v[1] + s.v[3], s.v[2] + s.v[4]>> >>
                [] s.s = "line" -> << <<s.v[1], s.v[2]>>, <<s.v[3], s.v[4]>> >>
                [] IsPoly(s) -> s.pts
                [] OTHER -> <<>>
RECURSIVE IncludeAll(_, _, _)
IncludeAll(b, ps, i) == IF i > Len(ps) THEN b ELSE IncludeAll(Include(b, ps[i]), ps, i + 1)
NewPic(n) == [n |-> n, items |-> <<>>, box |-> <<0, 0, 0, 0>>, any |-> FALSE]
\* actions; any: something was written, if only white space
Set(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
Make(h, n) == pic' = Set(pic, h, NewPic(n)) /\ UNCHANGED files
Shift(h, s) == pic' = [pic EXCEPT ![h].items = Append(@, s), ![h].box = IncludeAll(@, Corners(s), 1), ![h].any = TRUE] /\ UNCHANGED files
Newline(h) == pic' = [pic EXCEPT ![h].any = TRUE] /\ UNCHANGED files
IncludeInBB(h, p) == pic' = [pic EXCEPT ![h].box = Include(@, p)] /\ UNCHANGED files
SetBox(h, b) == pic' = [pic EXCEPT ![h].box = b] /\ UNCHANGED files
MoveAssign(h, g) == pic' = Set(Set(pic, g, [pic[g] EXCEPT !.items = <<>>, !.any = FALSE]), h, pic[g]) /\ UNCHANGED files
Written(h) == IF pic[h].n >= 0 /\ pic[h].any THEN files' = Set(files, pic[h].n, [items |-> pic[h].items, box |-> pic[h].box]) ELSE UNCHANGED files
Write(h) == Written(h) /\ UNCHANGED pic
Destroy(h) == Written(h) /\ pic' = [x \in DOMAIN pic \ {h} |-> pic[x]]
============================================================================
