------------------------------ MODULE SvgTrace ------------------------------
(* Images of shapes: what is written, when, the box, that the files read as *)
(* XML show the shapes, and the arithmetic of colors, points and sizes.     *)
EXTENDS TraceKit, Svg
VARIABLES x, cur     \* XML machine, file which is read
vars == <<l, pic, files, x, cur>>
TInit == TKInit /\ pic = <<>> /\ files = <<>> /\ x = X0 /\ cur = -1
Same == UNCHANGED <<x, cur>>
All == UNCHANGED <<pic, files, x, cur>>
StartEv == Is("start") /\ pic' = <<>> /\ files' = <<>> /\ x' = X0 /\ cur' = -1
MakeEv == Is("make") /\ Make(Ev.h, Ev.n) /\ Same
ShiftEv == Is("shift") /\ Shift(Ev.h, Ev.s) /\ Same
NewlineEv == Is("newline") /\ Newline(Ev.h) /\ Same
IncludeEv == Is("include") /\ IncludeInBB(Ev.h, Ev.p) /\ Same
SetBoxEv == Is("setbox") /\ SetBox(Ev.h, Ev.b) /\ Same
BoxEv == Is("box") /\ Ev.b = pic[Ev.h].box /\ All
MoveEv == Is("move") /\ MoveAssign(Ev.h, Ev.g) /\ Same
WriteEv == Is("write") /\ Write(Ev.h) /\ Same
DestroyEv == Is("destroy") /\ Destroy(Ev.h) /\ Same
AbsentEv == Is("absent") /\ Ev.n \notin DOMAIN files /\ All
LookEv == Is("look") /\ Ev.n \in DOMAIN files /\ cur' = Ev.n /\ x' = X0 /\ UNCHANGED <<pic, files>>
PieceEv == Is("piece") /\ cur >= 0 /\ x' = XRead(x, Ev.b) /\ x'.st # "bad" /\ UNCHANGED <<pic, files, cur>>
EofEv == Is("eof") /\ cur >= 0 /\ FileOK(x, files[cur]) /\ cur' = -1 /\ x' = X0 /\ UNCHANGED <<pic, files>>
\* a shape written to some other stream
FragEv == Is("frag") /\ All /\ LET r == XRead(X0, Ev.b) IN r.st = "text" /\ r.open = <<>> /\ Len(r.out) = 1 /\ ItemOK(r.out[1], Ev.s)
VisualEv == Is("visual") /\ Ev.got = Ev.put /\ All
\* colors with three parts
Abs(v) == IF v < 0 THEN -v ELSE v
Clamp(v) == Mx(0, Mn(255, v))
Rounds(v, n, d) == 2 * Abs(v * d - n) <= d
ScaleOK(c, p, q, r) == \A i \in 1..3 : IF c[i] * p < 0 THEN r[i] = 0 ELSE IF c[i] * p > 255 * q THEN r[i] = 255 ELSE Rounds(r[i], c[i] * p, q)
LerpOK(a, b, p, q, r) == \A i \in 1..3 : Rounds(r[i], a[i] * p + b[i] * (q - p), q)
ColorEv == /\ Is("color") /\ All
           /\ \A i \in DOMAIN Ev.q : LET y == Ev.q[i]  a == y.a  b == y.b IN
                /\ y.add = [k \in 1..3 |-> Clamp(a[k] + b[k])] /\ y.sub = [k \in 1..3 |-> Clamp(a[k] - b[k])] /\ y.adda = y.add /\ y.suba = y.sub
                /\ y.eq = (a = b) /\ y.ne = (a # b) /\ y.idx = a /\ y.cidx = a /\ y.tidx = a
                /\ ScaleOK(a, y.p, 64, y.mul) /\ ScaleOK(a, y.p, 64, y.lmul) /\ ScaleOK(a, y.p, 64, y.mula)
                /\ LerpOK(a, b, y.f, 64, y.lerp)
\* a color written to a stream leaves flags and fill character as they were
TextEv == Is("text") /\ All /\ ColorOK(Ev.t, Ev.c) /\ Ev.after = Ev.plain
\* constructors: 24 bits of a number, three parts, gray
ConsEv == Is("cons") /\ All /\ Ev.rgb = Ev.v /\ Ev.parts = Ev.v /\ Ev.gray = <<Ev.v[1], Ev.v[1], Ev.v[1]>>
ClampEv == /\ Is("clamp") /\ All
           /\ \A i \in DOMAIN Ev.q : LET y == Ev.q[i] IN y.i = Clamp(y.v) /\ y.l = Clamp(y.v)
              /\ (IF y.p < 0 THEN y.r = 0 /\ y.d = 0 ELSE IF y.p > 255 * 64 THEN y.r = 255 /\ y.d = 255 ELSE Rounds(y.r, y.p, 64) /\ Rounds(y.d, y.p, 64))
NamesEv == /\ Is("names") /\ All
           /\ Ev.c = << <<0, 0, 0>>, <<64, 64, 64>>, <<128, 128, 128>>, <<192, 192, 192>>, <<255, 255, 255>>,
                        <<255, 0, 0>>, <<0, 255, 0>>, <<0, 0, 255>>, <<255, 255, 0>>, <<255, 0, 255>>, <<0, 255, 255>>, <<0, 0, 0>> >>
\* points and sizes are moved by sizes
GeoEv == /\ Is("geo") /\ All
         /\ LET plus == <<Ev.a[1] + Ev.d[1], Ev.a[2] + Ev.d[2]>>  minus == <<Ev.a[1] - Ev.d[1], Ev.a[2] - Ev.d[2]>>
            IN \A i \in DOMAIN Ev.plus : Ev.plus[i] = plus /\ Ev.minus[i] = minus
\* every constructor of a shape
SameEv == Is("same") /\ All /\ \A i \in DOMAIN Ev.v : Ev.v[i] = Ev.want
Next == StartEv \/ MakeEv \/ ShiftEv \/ NewlineEv \/ IncludeEv \/ SetBoxEv \/ BoxEv \/ MoveEv \/ WriteEv \/ DestroyEv \/ AbsentEv \/ LookEv \/ PieceEv \/ EofEv \/ FragEv
        \/ VisualEv \/ ColorEv \/ TextEv \/ ConsEv \/ ClampEv \/ NamesEv \/ GeoEv \/ SameEv
TraceSpec == TInit /\ [][Next]_vars
=============================================================================
