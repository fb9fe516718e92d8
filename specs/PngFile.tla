------------------------------ MODULE PngFile ------------------------------
(* Decoder for PNG files (ISO 15948) with 8 bit RGBA pixels and stored      *)
(* deflate blocks, as a state machine which reads one byte after the other. *)
(* d.st = "bad" as soon as the bytes cannot be (the beginning of) a file,   *)
(* "done" exactly after the last byte of a complete file; then d.rows are   *)
(* the rows of pixels, top row first.                                       *)
EXTENDS Integers, Sequences, Bitwise
\* 32 bit words are pairs <<low half, high half>>
CrcLo == <<0, 12438, 24876, 20922, 50201, 62607, 42293, 38307, 34866, 47268, 59678, 55688, 19499, 31933, 11527, 7569, 4196, 8434, 29000, 16862, 54397, 58603, 46417, 34247,
          38998, 43200, 63866, 51692, 23631, 27865, 15715, 3573, 8392, 4190, 16868, 29042, 58577, 54343, 34301, 46443, 43258, 39020, 51670, 63808, 27875, 23669, 3535, 15705,
          12460, 58, 20864, 24854, 62645, 50211, 38297, 42255, 47262, 34824, 55730, 59684, 31879, 19473, 7595, 11581, 16784, 28934, 8380, 4138, 34185, 46367, 58533, 54323,
          51618, 63796, 43150, 38936, 3515, 15661, 27799, 23553, 20980, 24930, 12504, 78, 38381, 42363, 62657, 50263, 55750, 59728, 47338, 34940, 7647, 11593, 31987, 19557,
          24920, 20942, 116, 12514, 42305, 38359, 50285, 62715, 59754, 55804, 34886, 47312, 11635, 7653, 19551, 31945, 28988, 16810, 4112, 8326, 46373, 34227, 54281, 58527,
          63758, 51608, 38946, 43188, 15639, 3457, 23611, 27821, 33568, 46006, 57868, 53914, 18233, 30639, 9749, 5763, 2834, 15236, 27198, 23208, 53003, 65437, 44583, 40625,
          37700, 41938, 62056, 49918, 22365, 26571, 13937, 1767, 7030, 11232, 31322, 19148, 57199, 61433, 48707, 36565, 41960, 37758, 49860, 62034, 26609, 22375, 1757, 13899,
          11226, 6988, 19190, 31328, 61379, 57173, 36591, 48761, 45964, 33562, 53920, 57910, 30613, 18179, 5817, 9775, 15294, 2856, 23186, 27140, 65447, 53041, 40587, 44573,
          49840, 61990, 41884, 37642, 1705, 13887, 26501, 22291, 19074, 31252, 11182, 6968, 36507, 48653, 61367, 57121, 53972, 57922, 46072, 33646, 5837, 9819, 30689, 18295,
          23270, 27248, 15306, 2908, 40703, 44649, 65491, 53061, 57976, 53998, 33620, 46018, 9825, 5879, 18253, 30683, 27210, 23260, 2918, 15344, 44627, 40645, 53119, 65513,
          61980, 49802, 37680, 41894, 13829, 1683, 22313, 26559, 31278, 19128, 6914, 11156, 48695, 36513, 57115, 61325>>
CrcHi == <<0, 30471, 60942, 39177, 1901, 28778, 59747, 40548, 3803, 31196, 57557, 38866, 2486, 32433, 59320, 37055, 7607, 27312, 62393, 33982, 6874, 28125, 62676, 33747,
          4972, 25707, 64866, 35429, 5121, 25350, 64015, 36104, 15214, 19561, 54624, 41575, 15363, 19204, 53773, 42250, 13749, 17074, 56251, 44220, 13016, 17887, 56534, 43985,
          9945, 20958, 51415, 49104, 8628, 22195, 53178, 47293, 10242, 24325, 50700, 45323, 12143, 22632, 49505, 46694, 30428, 475, 39122, 61397, 29105, 1718, 40895, 59576,
          30727, 3840, 38409, 57614, 32618, 2157, 37220, 58979, 27499, 7276, 34149, 62050, 27654, 6913, 33288, 62735, 26032, 4791, 35774, 64697, 25309, 5594, 36051, 64468,
          19890, 15029, 41916, 54459, 19167, 15832, 42193, 54230, 17257, 13422, 44391, 55904, 17412, 13059, 43530, 56589, 20485, 9986, 48651, 51468, 22376, 8303, 47462, 52833,
          24286, 10713, 45264, 51159, 22963, 11956, 47037, 49338, 60856, 39615, 950, 29873, 60117, 40402, 1243, 29660, 58211, 37988, 3437, 31338, 58382, 37641, 2560, 32007,
          61455, 34568, 7681, 26886, 63330, 32869, 6508, 28267, 65236, 35283, 4314, 26589, 63929, 36542, 6071, 24752, 54998, 41425, 14552, 20447, 53691, 42684, 16309, 18610,
          55309, 44810, 13827, 16644, 57184, 43111, 12654, 18025, 52065, 48230, 9583, 21096, 52236, 47883, 8706, 21765, 50618, 45757, 11188, 23731, 49879, 46544, 11481, 23518,
          39780, 60515, 30058, 621, 39945, 60174, 29191, 1280, 38335, 58040, 31665, 3254, 37586, 58837, 31964, 3035, 34515, 61908, 26845, 8154, 33214, 63161, 28592, 6327,
          34824, 65295, 26118, 4353, 36709, 63586, 24939, 5740, 40970, 55053, 19972, 14595, 42855, 53344, 18793, 15982, 44753, 55766, 16607, 14296, 43452, 57019, 18354, 12469,
          48573, 51898, 21427, 9396, 47824, 52695, 21726, 9177, 45926, 50273, 23912, 10863, 46091, 49932, 23045, 11522>>
\* definition of the table by eight divisions by the polynomial
RECURSIVE CrcBits(_, _)
CrcBits(c, n) == IF n = 0 THEN c
    ELSE LET s == <<(c[1] \div 2) + (c[2] % 2) * 32768, c[2] \div 2>>
         IN CrcBits(IF c[1] % 2 = 1 THEN <<s[1] ^^ 33568, s[2] ^^ 60856>> ELSE s, n - 1)
CrcInit == <<65535, 65535>>
Crc(c, b) == LET i == ((c[1] % 256) ^^ b) + 1
             IN <<((c[1] \div 256) + (c[2] % 256) * 256) ^^ CrcLo[i], (c[2] \div 256) ^^ CrcHi[i]>>
CrcBytes(c) == LET lo == 65535 - c[1]  hi == 65535 - c[2] IN <<hi \div 256, hi % 256, lo \div 256, lo % 256>>
Adler(a, b) == LET x == (a[1] + b) % 65521 IN <<x, (a[2] + x) % 65521>>
AdlerBytes(a) == <<a[2] \div 256, a[2] % 256, a[1] \div 256, a[1] % 256>>
Magic == <<137, 80, 78, 71, 13, 10, 26, 10>>
IHDR == <<73, 72, 68, 82>>
IDAT == <<73, 68, 65, 84>>
IEND == <<73, 69, 78, 68>>
D0 == [st |-> "magic", buf |-> <<>>, crc |-> CrcInit, left |-> 0, type |-> <<>>, seen |-> {}, prev |-> <<>>,
       w |-> 0, h |-> 0, z |-> "cmf", zbuf |-> <<>>, zleft |-> 0, last |-> FALSE, ad |-> <<1, 0>>,
       filter |-> -1, row |-> <<>>, rows |-> <<>>]
Bad(d) == [d EXCEPT !.st = "bad"]
Num(b) == ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
SmallNum(b) == b[1] < 128
\* reconstruction of a filtered byte
At(r, i) == IF i \in DOMAIN r THEN r[i] ELSE 0
Paeth(a, b, c) == LET p == a + b - c
                      da == IF p > a THEN p - a ELSE a - p
                      db == IF p > b THEN p - b ELSE b - p
                      dc == IF p > c THEN p - c ELSE c - p
                  IN IF da <= db /\ da <= dc THEN a ELSE IF db <= dc THEN b ELSE c
UpRow(d) == IF d.rows = <<>> THEN <<>> ELSE d.rows[Len(d.rows)]
Recon(d, x) == LET i == Len(d.row) + 1
                   a == At(d.row, i - 4)
                   up == UpRow(d)
               IN IF d.filter = 0 THEN x
                  ELSE (x + (CASE d.filter = 1 -> a [] d.filter = 2 -> At(up, i) [] d.filter = 3 -> (a + At(up, i)) \div 2
                             [] d.filter = 4 -> Paeth(a, At(up, i), At(up, i - 4)))) % 256
\* a byte of the uncompressed image
Pixel(d, x) == IF Len(d.rows) = d.h THEN Bad(d)
               ELSE IF d.filter < 0 THEN IF x > 4 THEN Bad(d) ELSE [d EXCEPT !.filter = x]
               ELSE LET r == Append(d.row, Recon(d, x))
                    IN IF Len(r) = 4 * d.w THEN [d EXCEPT !.rows = Append(@, r), !.row = <<>>, !.filter = -1] ELSE [d EXCEPT !.row = r]
\* a byte of the compressed stream
ZByte(d, x) ==
   CASE d.z = "cmf" -> IF x % 16 # 8 \/ x \div 16 > 7 THEN Bad(d) ELSE [d EXCEPT !.z = "flg", !.zbuf = <<x>>]
     [] d.z = "flg" -> IF (d.zbuf[1] * 256 + x) % 31 # 0 \/ (x \div 32) % 2 # 0 THEN Bad(d) ELSE [d EXCEPT !.z = "block"]
     [] d.z = "block" -> IF x \notin {0, 1} THEN Bad(d) ELSE [d EXCEPT !.z = "len", !.zbuf = <<>>, !.last = x = 1]
     [] d.z = "len" -> IF Len(d.zbuf) < 3 THEN [d EXCEPT !.zbuf = Append(@, x)]
                       ELSE LET n == d.zbuf[1] + 256 * d.zbuf[2]
                            IN IF n + d.zbuf[3] + 256 * x # 65535 THEN Bad(d)
                               ELSE [d EXCEPT !.zleft = n, !.zbuf = <<>>, !.z = IF n > 0 THEN "data" ELSE IF d.last THEN "adler" ELSE "block"]
     [] d.z = "data" -> Pixel([d EXCEPT !.zleft = @ - 1, !.ad = Adler(@, x), !.z = IF d.zleft > 1 THEN "data" ELSE IF d.last THEN "adler" ELSE "block"], x)
     [] d.z = "adler" -> IF x # AdlerBytes(d.ad)[Len(d.zbuf) + 1] THEN Bad(d)
                         ELSE [d EXCEPT !.zbuf = Append(@, x), !.z = IF Len(d.zbuf) = 3 THEN "end" ELSE "adler"]
     [] OTHER -> Bad(d)
\* end of a chunk of type d.type with the data of a header in d.buf
EndChunk(d) ==
   CASE d.type = IHDR -> IF d.seen # {} \/ Len(d.buf) # 13 \/ ~SmallNum(d.buf) \/ ~SmallNum(SubSeq(d.buf, 5, 8)) \/ SubSeq(d.buf, 9, 13) # <<8, 6, 0, 0, 0>>
                            \/ Num(d.buf) = 0 \/ Num(SubSeq(d.buf, 5, 8)) = 0 THEN Bad(d)
                         ELSE [d EXCEPT !.w = Num(d.buf), !.h = Num(SubSeq(d.buf, 5, 8)), !.seen = {"IHDR"}, !.st = "length", !.buf = <<>>, !.prev = d.type]
     [] d.type = IDAT -> [d EXCEPT !.seen = @ \cup {"IDAT"}, !.st = "length", !.buf = <<>>, !.prev = d.type]
     [] d.type = IEND -> IF d.z # "end" \/ Len(d.rows) # d.h \/ d.row # <<>> \/ d.filter >= 0 THEN Bad(d) ELSE [d EXCEPT !.st = "done"]
     [] OTHER -> [d EXCEPT !.st = "length", !.buf = <<>>, !.prev = d.type]
\* a chunk may start here: the header first, the parts of the image in one go, unknown chunks if they are not critical
MayStart(d, t) == IF t = IHDR THEN d.seen = {}
                  ELSE /\ "IHDR" \in d.seen
                       /\ IF t = IDAT THEN "IDAT" \notin d.seen \/ d.prev = IDAT ELSE IF t = IEND THEN "IDAT" \in d.seen ELSE t[1] \in 97..122
Data(d, x) == CASE d.type = IDAT -> ZByte(d, x)
                [] d.type = IHDR -> IF Len(d.buf) < 13 THEN [d EXCEPT !.buf = Append(@, x)] ELSE Bad(d)
                [] d.type = IEND -> Bad(d)
                [] OTHER -> d
DecodeByte(d, x) ==
   CASE d.st = "data" -> LET e == Data([d EXCEPT !.crc = Crc(@, x), !.left = @ - 1], x)
                         IN IF e.st = "bad" THEN e ELSE IF e.left = 0 THEN [e EXCEPT !.st = "crc"] ELSE e
     [] d.st = "magic" -> IF x # Magic[Len(d.buf) + 1] THEN Bad(d) ELSE IF Len(d.buf) = 7 THEN [d EXCEPT !.st = "length", !.buf = <<>>] ELSE [d EXCEPT !.buf = Append(@, x)]
     [] d.st = "length" -> LET b == Append(d.buf, x) IN IF Len(b) < 4 THEN [d EXCEPT !.buf = b]
                           ELSE IF ~SmallNum(b) THEN Bad(d) ELSE [d EXCEPT !.st = "type", !.buf = <<>>, !.left = Num(b), !.crc = CrcInit, !.type = <<>>]
     [] d.st = "type" -> LET t == Append(d.type, x)  c == Crc(d.crc, x)
                         IN IF Len(t) < 4 THEN [d EXCEPT !.type = t, !.crc = c]
                            ELSE IF ~MayStart(d, t) THEN Bad(d) ELSE [d EXCEPT !.type = t, !.crc = c, !.st = IF d.left = 0 THEN "crc" ELSE "data"]
     [] d.st = "crc" -> LET k == 1 - d.left          \* left counts down from 0 through the sum
                        IN IF x # CrcBytes(d.crc)[k] THEN Bad(d) ELSE IF k = 4 THEN EndChunk([d EXCEPT !.left = 0]) ELSE [d EXCEPT !.left = @ - 1]
     [] OTHER -> Bad(d)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(d, s, i) == IF i > Len(s) \/ d.st = "bad" THEN d ELSE DecodeFrom(DecodeByte(d, s[i]), s, i + 1)
Decode(d, s) == DecodeFrom(d, s, 1)
\* encoder: one stored block for every row
Be32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
RECURSIVE CrcOf(_, _, _)
CrcOf(c, s, i) == IF i > Len(s) THEN c ELSE CrcOf(Crc(c, s[i]), s, i + 1)
Chunk(t, s) == Be32(Len(s)) \o t \o s \o CrcBytes(CrcOf(CrcInit, t \o s, 1))
RECURSIVE AdlerOf(_, _, _)
AdlerOf(a, s, i) == IF i > Len(s) THEN a ELSE AdlerOf(Adler(a, s[i]), s, i + 1)
RECURSIVE Blocks(_, _, _)
Blocks(rows, i, acc) == IF i > Len(rows) THEN acc
    ELSE LET n == Len(rows[i]) + 1 IN Blocks(rows, i + 1, acc \o <<IF i = Len(rows) THEN 1 ELSE 0, n % 256, n \div 256, 255 - (n % 256), 255 - (n \div 256), 0>> \o rows[i])
RECURSIVE Raw(_, _, _)
Raw(rows, i, acc) == IF i > Len(rows) THEN acc ELSE Raw(rows, i + 1, acc \o <<0>> \o rows[i])
Encode(rows) == Magic \o Chunk(IHDR, Be32(Len(rows[1]) \div 4) \o Be32(Len(rows)) \o <<8, 6, 0, 0, 0>>)
                \o Chunk(IDAT, <<120, 1>> \o Blocks(rows, 1, <<>>) \o AdlerBytes(AdlerOf(<<1, 0>>, Raw(rows, 1, <<>>), 1))) \o Chunk(IEND, <<>>)
============================================================================
