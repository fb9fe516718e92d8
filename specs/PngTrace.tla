------------------------------ MODULE PngTrace ------------------------------
(* Images with file names: what is written, when, and that the files decode *)
(* to the image, the row with the largest y on top.                         *)
EXTENDS TraceKit, PngFile
VARIABLES pic,       \* handle -> [n |-> file (-1: none), g |-> image]
          files,     \* file -> image written last
          d, cur     \* decoder, file which is read
vars == <<l, pic, files, d, cur>>
TInit == TKInit /\ pic = <<>> /\ files = <<>> /\ d = D0 /\ cur = -1
Same == UNCHANGED <<d, cur>>
Set(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
Minus(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
Wd(g) == IF g = <<>> THEN 0 ELSE Len(g[1])
Blank(w, h, c) == LET r == [x \in 1..w |-> c] IN [y \in 1..h |-> r]
Written(h) == IF pic[h].n >= 0 /\ Wd(pic[h].g) > 0 THEN files' = Set(files, pic[h].n, pic[h].g) ELSE UNCHANGED files
StartEv == Is("start") /\ pic' = <<>> /\ files' = <<>> /\ d' = D0 /\ cur' = -1
MakeEv == Is("make") /\ pic' = Set(pic, Ev.h, [n |-> Ev.n, g |-> <<>>]) /\ UNCHANGED files /\ Same
ClearEv == Is("clear") /\ pic' = [pic EXCEPT ![Ev.h].g = Blank(Ev.w, Ev.hh, Ev.c)] /\ UNCHANGED files /\ Same
LoadEv == Is("load") /\ pic' = [pic EXCEPT ![Ev.h].g = Ev.px] /\ UNCHANGED files /\ Same
SetEv == Is("set") /\ pic' = [pic EXCEPT ![Ev.h].g[Ev.p[2] + 1][Ev.p[1] + 1] = Ev.c] /\ UNCHANGED files /\ Same
CopyEv == Is("copy") /\ pic' = Set(pic, Ev.h, pic[Ev.g]) /\ UNCHANGED files /\ Same
\* what was moved from has no pixels
MoveEv == Is("move") /\ pic' = Set(Set(pic, Ev.g, [n |-> pic[Ev.g].n, g |-> <<>>]), Ev.h, pic[Ev.g]) /\ UNCHANGED files /\ Same
WriteEv == Is("write") /\ Written(Ev.h) /\ UNCHANGED pic /\ Same
DestroyEv == Is("destroy") /\ Written(Ev.h) /\ pic' = Minus(pic, Ev.h) /\ Same
AbsentEv == Is("absent") /\ Ev.n \notin DOMAIN files /\ UNCHANGED <<pic, files>> /\ Same
LookEv == Is("look") /\ Ev.n \in DOMAIN files /\ cur' = Ev.n /\ d' = D0 /\ UNCHANGED <<pic, files>>
PieceEv == Is("piece") /\ cur >= 0 /\ d' = Decode(d, Ev.b) /\ d'.st # "bad" /\ UNCHANGED <<pic, files, cur>>
Matches(g, r) == /\ Len(g) = Len(r)
                 /\ \A y \in DOMAIN g : LET row == r[Len(g) + 1 - y] IN Len(row) = 4 * Len(g[y]) /\ \A x \in DOMAIN g[y] : \A i \in 1..4 : row[4 * (x - 1) + i] = g[y][x][i]
EofEv == Is("eof") /\ cur >= 0 /\ d.st = "done" /\ Matches(files[cur], d.rows) /\ cur' = -1 /\ d' = D0 /\ UNCHANGED <<pic, files>>
\* the visualizer opens the input and the answer next to the image
VisualEv == Is("visual") /\ Ev.got = Ev.put /\ UNCHANGED <<pic, files>> /\ Same
Next == StartEv \/ MakeEv \/ ClearEv \/ LoadEv \/ SetEv \/ CopyEv \/ MoveEv \/ WriteEv \/ DestroyEv \/ AbsentEv \/ LookEv \/ PieceEv \/ EofEv \/ VisualEv
TraceSpec == TInit /\ [][Next]_vars
=============================================================================
