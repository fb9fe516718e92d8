------------------------------- MODULE SvgMC -------------------------------
(* Images built from a few shapes, written by an encoder and read back by   *)
(* the XML machine byte by byte.  The box contains every corner, and every  *)
(* side of it touches a corner or the origin; the file shows the image, and *)
(* no other image with fewer, more or other shapes.                         *)
EXTENDS Svg, TLC
CONSTANTS MaxItems, Coords
QCoords == {-96, 0, 64}
DCoords == {-97, 64}
VARIABLES x, at, doc
StrokeA == [c |-> <<255, 0, 10>>, w |-> 32, cap |-> 2, join |-> 3, scale |-> FALSE]
StrokeB == [c |-> <<0, 171, 205>>, w |-> 64, cap |-> 0, join |-> 1, scale |-> TRUE]
Shapes == {[s |-> "rect", v |-> <<a, b, 64, 32>>, pts |-> <<>>, stroke |-> <<>>, fill |-> <<>>] : a \in Coords, b \in Coords}
     \cup {[s |-> "circle", v |-> <<a, 64, 16>>, pts |-> <<>>, stroke |-> <<StrokeA>>, fill |-> << <<1, 2, 3>> >>] : a \in Coords}
     \cup {[s |-> "ellipse", v |-> <<0, a, 16, 48>>, pts |-> <<>>, stroke |-> <<StrokeB>>, fill |-> <<>>] : a \in Coords}
     \cup {[s |-> "line", v |-> <<a, 0, 0, b>>, pts |-> <<>>, stroke |-> <<>>, fill |-> <<>>] : a \in Coords, b \in Coords}
     \cup {[s |-> k, v |-> <<>>, pts |-> << <<a, b>>, <<b, a>> >>, stroke |-> <<>>, fill |-> << <<0, 0, 255>> >>] : k \in {"polygon", "polyline"}, a \in Coords, b \in Coords}
     \cup {[s |-> "comment", v |-> <<97, 45, 98>>, pts |-> <<>>, stroke |-> <<>>, fill |-> <<>>]}
\* encoder
NumText(k) == LET a == IF k < 0 THEN -k ELSE k
                  f == ((a % 64) * 1000000) \div 64
                  pad == SubSeq(ToDigits(Nat1(1000000 + f)), 2, 7)
              IN (IF k < 0 THEN <<45>> ELSE <<>>) \o ToDigits(Nat1(a \div 64)) \o <<46>> \o pad
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
ColorText(c) == <<35, HexD(c[1] \div 16), HexD(c[1] % 16), HexD(c[2] \div 16), HexD(c[2] % 16), HexD(c[3] \div 16), HexD(c[3] % 16)>>
AttrText(k, v) == k \o <<61, 34>> \o v \o <<34, 32>>
RECURSIVE GeoText(_, _, _)
GeoText(g, i, acc) == IF i > Len(g) THEN acc ELSE GeoText(g, i + 1, acc \o AttrText(g[i][1], NumText(g[i][2])))
RECURSIVE PtsText(_, _, _)
PtsText(p, i, acc) == IF i > Len(p) THEN acc ELSE PtsText(p, i + 1, acc \o NumText(p[i][1]) \o <<44>> \o NumText(-p[i][2]) \o <<32>>)
StyleText(s) == (IF s.stroke = <<>> THEN AttrText(KStroke, VNone)
                 ELSE LET k == s.stroke[1] IN AttrText(KStroke, ColorText(k.c)) \o AttrText(KSw, NumText(k.w)) \o (IF k.cap = 0 THEN <<>> ELSE AttrText(KCap, Caps[k.cap]))
                      \o (IF k.join = 0 THEN <<>> ELSE AttrText(KJoin, Joins[k.join])) \o (IF k.scale THEN <<>> ELSE AttrText(KVe, VNon)))
                \o (IF s.fill = <<>> THEN AttrText(KFill, VNone) ELSE AttrText(KFill, ColorText(s.fill[1])))
ItemText(s) == IF s.s = "comment" THEN <<60, 33, 45, 45, 32>> \o s.v \o <<32, 45, 45, 62>>
               ELSE <<60>> \o ElName(s) \o <<32>> \o GeoText(Geo(s), 1, <<>>) \o (IF IsPoly(s) THEN AttrText(KPts, PtsText(s.pts, 1, <<>>)) ELSE <<>>) \o StyleText(s) \o <<47, 62, 10>>
RECURSIVE ItemsText(_, _, _)
ItemsText(t, i, acc) == IF i > Len(t) THEN acc ELSE ItemsText(t, i + 1, acc \o ItemText(t[i]))
FileText(f) == <<60, 63, 120, 109, 108, 32>> \o AttrText(KVer, V10) \o AttrText(KEnc, Utf8) \o <<63, 62, 10, 60>> \o SvgN \o <<32>> \o AttrText(KNs, VNs)
               \o AttrText(KVb, NumText(f.box[1]) \o <<32>> \o NumText(-(f.box[2] + f.box[4])) \o <<32>> \o NumText(f.box[3]) \o <<32>> \o NumText(f.box[4])) \o <<62, 10>>
               \o ItemsText(f.items, 1, <<>>) \o <<60, 47>> \o SvgN \o <<62>>
Init == pic = (0 :> NewPic(5)) /\ files = <<>> /\ x = X0 /\ at = 0 /\ doc = <<>>
AddShape == files = <<>> /\ Len(pic[0].items) < MaxItems /\ (\E s \in Shapes : Shift(0, s)) /\ UNCHANGED <<x, at, doc>>
Done == files = <<>> /\ Write(0) /\ doc' = (IF 5 \in DOMAIN files' THEN FileText(files'[5]) ELSE <<>>) /\ UNCHANGED <<x, at>>
\* read up to 40 bytes in a step
ReadSome == /\ files # <<>> /\ at < Len(doc) /\ LET to == Mn(at + 40, Len(doc)) IN x' = XRead(x, SubSeq(doc, at + 1, to)) /\ at' = to
            /\ UNCHANGED <<pic, files, doc>>
Next == AddShape \/ Done \/ ReadSome
Spec == Init /\ [][Next]_<<pic, files, x, at, doc>>
Box == pic[0].box
Touches(b, t) == LET ps == {<<0, 0>>} \cup UNION {{Corners(t[i])[j] : j \in DOMAIN Corners(t[i])} : i \in DOMAIN t}
                 IN /\ \A p \in ps : b[1] <= p[1] /\ p[1] <= b[1] + b[3] /\ b[2] <= p[2] /\ p[2] <= b[2] + b[4]
                    /\ (\E p \in ps : p[1] = b[1]) /\ (\E p \in ps : p[1] = b[1] + b[3]) /\ (\E p \in ps : p[2] = b[2]) /\ (\E p \in ps : p[2] = b[2] + b[4])
BoxFits == Touches(Box, pic[0].items)
Reads == x.st # "bad" /\ (at < Len(doc) => ~Complete(x))
Shows == (files # <<>> /\ at = Len(doc)) =>
            LET f == files[5] IN /\ FileOK(x, f)
                                 /\ \A i \in DOMAIN f.items : \A s \in Shapes : (s # f.items[i]) => ~FileOK(x, [f EXCEPT !.items[i] = s])
                                 /\ ~FileOK(x, [f EXCEPT !.box[1] = @ + 1]) /\ ~FileOK(x, [f EXCEPT !.box[4] = @ + 1]) /\ ~FileOK(x, [f EXCEPT !.items = SubSeq(@, 2, Len(@))])
NothingNothing == files # <<>> => pic[0].any
ASSUME /\ \A t \in {<<49, 46, 53>>, <<49, 53, 101, 45, 49>>, <<49, 46, 53, 48, 48>>, <<43, 48, 49, 46, 53, 101, 43, 48>>, <<48, 46, 49, 53, 69, 49>>} : NumOK(t, 96, FALSE) /\ ~NumOK(t, 97, FALSE) /\ ~NumOK(t, -96, TRUE)
       /\ NumOK(<<45, 48>>, 0, FALSE) /\ ~NumOK(<<46>>, 0, TRUE) /\ ~NumOK(<<49, 46, 49, 46, 49>>, 70, TRUE) /\ ~NumOK(<<>>, 0, TRUE)
============================================================================
