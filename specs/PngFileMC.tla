----------------------------- MODULE PngFileMC -----------------------------
(* Reads encoded images byte by byte; at one place the byte may be another  *)
(* one, or the file may end or go on.  The undamaged file gives the image,  *)
(* damaged files are never accepted as another image.                       *)
EXTENDS PngFile, TLC
VARIABLES img, d, pos, hurt
CONSTANTS Sizes, Flips
DeepSizes == {<<1, 1>>, <<2, 2>>, <<3, 1>>, <<1, 4>>}
AllFlips == 1..255
QuickSizes == {<<1, 1>>, <<2, 1>>, <<1, 3>>}
Value(k) == (37 * k * k + 11 * k) % 256
ImageOf(w, h, s) == [y \in 1..h |-> [i \in 1..(4 * w) |-> Value(s + i + 100 * y)]]
Images == UNION {{ImageOf(q[1], q[2], s) : s \in {1, 2}} : q \in Sizes}
File == Encode(img)
Init == img \in Images /\ d = D0 /\ pos = 0 /\ hurt = FALSE
Read == /\ pos < Len(File) /\ pos' = pos + 1
        /\ \/ d' = DecodeByte(d, File[pos + 1]) /\ UNCHANGED hurt
           \/ ~hurt /\ hurt' = TRUE /\ \E f \in Flips : d' = DecodeByte(d, File[pos + 1] ^^ f)
More == pos = Len(File) /\ ~hurt /\ hurt' = TRUE /\ \E f \in Flips : d' = DecodeByte(d, f) /\ UNCHANGED pos
Next == d.st # "bad" /\ (Read \/ More) /\ UNCHANGED img
Spec == Init /\ [][Next]_<<img, d, pos, hurt>>
Decoded == ~hurt => (d.st = "done" <=> pos = Len(File)) /\ (d.st = "done" => d.rows = img)
NoDamage == hurt => d.st # "done"
Proceeds == ~hurt => d.st # "bad"
ASSUME \A i \in 0..255 : CrcBits(<<i, 0>>, 8) = <<CrcLo[i + 1], CrcHi[i + 1]>>
\* check sums of "123456789" and "Wikipedia"
ASSUME CrcBytes(CrcOf(CrcInit, <<49, 50, 51, 52, 53, 54, 55, 56, 57>>, 1)) = <<203, 244, 57, 38>>
ASSUME AdlerBytes(AdlerOf(<<1, 0>>, <<87, 105, 107, 105, 112, 101, 100, 105, 97>>, 1)) = <<17, 230, 3, 152>>
\* rows filtered in other ways, parts of the image in several chunks and blocks, an unknown chunk
Zs == <<120, 1, 0, 1, 0, 254, 255, 1, 0, 0, 0, 255, 255, 1, 17, 0, 238, 255, 10, 20, 30, 40, 1, 2, 3, 4, 4, 1, 1, 1, 1, 255, 255, 255, 0>>
Zraw == <<1, 10, 20, 30, 40, 1, 2, 3, 4, 4, 1, 1, 1, 1, 255, 255, 255, 0>>
Other == Magic \o Chunk(IHDR, Be32(2) \o Be32(2) \o <<8, 6, 0, 0, 0>>) \o Chunk(<<116, 69, 88, 116>>, <<1, 2>>) \o Chunk(IDAT, SubSeq(Zs, 1, 20))
         \o Chunk(IDAT, SubSeq(Zs, 21, Len(Zs)) \o AdlerBytes(AdlerOf(<<1, 0>>, Zraw, 1))) \o Chunk(IEND, <<>>)
ASSUME LET e == Decode(D0, Other) IN e.st = "done" /\ e.rows = <<<<10, 20, 30, 40, 11, 22, 33, 44>>, <<11, 21, 31, 41, 10, 21, 32, 44>>>>
============================================================================
