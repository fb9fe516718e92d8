---------------------------- MODULE CanvasTrace ----------------------------
EXTENDS TraceKit, Canvas
vars == <<l, img>>
TInit == TKInit /\ img = <<>>
StartEv == Is("start") /\ img' = <<>>
ClearEv == Is("clear") /\ Clear(Ev.h, Ev.w, Ev.hh, Ev.c)
SetEv == Is("set") /\ Ev.h \in DOMAIN img /\ SetPixel(Ev.h, Ev.p, Ev.c)
LoadEv == Is("load") /\ Put(Ev.h, Ev.px)
CopyEv == Is("copy") /\ Ev.g \in DOMAIN img /\ Put(Ev.h, img[Ev.g])
GetEv == Is("get") /\ Ev.h \in DOMAIN img /\ Ev.px = img[Ev.h] /\ Ev.w = W(img[Ev.h]) /\ Ev.hh = H(img[Ev.h]) /\ UNCHANGED img
RectEv == Is("rect") /\ Ev.h \in DOMAIN img /\ Rect(Ev.h, Ev.px, Ev.a, Ev.b, Ev.m, Ev.border, Ev.fill)
FloodEv == Is("flood") /\ Ev.h \in DOMAIN img /\ Flood(Ev.h, Ev.px, Ev.a, Ev.m, Ev.c)
LineEv == Is("line") /\ Ev.h \in DOMAIN img /\ Line(Ev.h, Ev.px, Ev.a, Ev.b, Ev.m, Ev.c)
\* arithmetic of colors: a list of results for two colors
ColorEv == /\ Is("color")
           /\ \A i \in DOMAIN Ev.q : LET x == Ev.q[i]  a == x.a  b == x.b IN
                /\ x.add = AddC(a, b) /\ x.sub = SubC(a, b) /\ x.adda = x.add /\ x.suba = x.sub /\ BlendOK(a, b, x.blend)
                /\ x.eq = (a = b) /\ x.ne = (a # b) /\ x.idx = a /\ x.cidx = a /\ x.tidx = a
                /\ ScaleOK(a, x.p, 64, x.mul) /\ ScaleOK(a, x.p, 64, x.lmul) /\ ScaleOK(a, x.p, 64, x.mula)
                /\ LerpOK(a, b, x.f, 64, x.lerp)
           /\ UNCHANGED img
\* constructors: 24 bits of a number, three or four parts; names
MakeEv == /\ Is("make") /\ Ev.rgb = <<Ev.v[1], Ev.v[2], Ev.v[3], 255>> /\ Ev.rgba = Ev.v /\ Ev.parts = <<Ev.v[1], Ev.v[2], Ev.v[3], 255>> /\ Ev.parts4 = Ev.v /\ UNCHANGED img
ClampEv == /\ Is("clamp") /\ \A i \in DOMAIN Ev.q : LET x == Ev.q[i] IN x.i = Clamp(x.v) /\ x.l = Clamp(x.v)
              /\ (IF 2 * x.p < 0 THEN x.r = 0 /\ x.d = 0 ELSE IF x.p > 255 * 64 THEN x.r = 255 /\ x.d = 255 ELSE Rounds(x.r, x.p, 64) /\ Rounds(x.d, x.p, 64))
           /\ UNCHANGED img
NamesEv == /\ Is("names") /\ UNCHANGED img
           /\ Ev.c = << <<0, 0, 0, 255>>, <<64, 64, 64, 255>>, <<128, 128, 128, 255>>, <<192, 192, 192, 255>>, <<255, 255, 255, 255>>, <<0, 0, 0, 0>>,
                        <<255, 0, 0, 255>>, <<0, 255, 0, 255>>, <<0, 0, 255, 255>>, <<255, 255, 0, 255>>, <<255, 0, 255, 255>>, <<0, 255, 255, 255>>, <<0, 0, 0, 255>> >>
PointEv == Is("point") /\ Ev.eq = (Ev.a = Ev.b) /\ Ev.ne = (Ev.a # Ev.b) /\ UNCHANGED img
Next == StartEv \/ ClearEv \/ SetEv \/ LoadEv \/ CopyEv \/ GetEv \/ RectEv \/ FloodEv \/ LineEv \/ ColorEv \/ MakeEv \/ ClampEv \/ NamesEv \/ PointEv
TraceSpec == TInit /\ [][Next]_vars
=============================================================================
