------------------------------ MODULE Report ------------------------------
(* What the report of a failed read has to say: what was wrong (with the     *)
(* values involved), and, if the position of the stream can be determined,   *)
(* where: line, column, an excerpt of the line and a marker under the piece  *)
(* of input that was refused.                                                *)
EXTENDS Reader
\* --- the piece of input [s, e) that is refused (1-based); <<0, 0>>: the end of the input
Piece(p) == LET b == IF strict THEN p ELSE SkipFrom(input, p) IN
            IF b > Len(input) THEN <<0, 0>>
            ELSE IF strict /\ ~IsGraph(input[b]) THEN <<b, b + 1>>
            ELSE <<b, RunEnd(input, b)>>
LineNo(s) == 1 + Cardinality({i \in 1..(s - 1) : input[i] = NL})
LineStart(s) == LET N == {i \in 1..(s - 1) : input[i] = NL} IN IF N = {} THEN 1 ELSE 1 + (CHOOSE i \in N : \A j \in N : j <= i)
RECURSIVE LineEnd(_)
LineEnd(s) == IF s > Len(input) \/ input[s] = NL THEN s ELSE LineEnd(s + 1)      \* position of the line end
\* the line around s as shown; a refused line end is shown as a blank
Shown(s) == SubSeq(input, LineStart(s), LineEnd(s) - 1) \o (IF input[s] = NL THEN <<SP>> ELSE <<>>)
DOTS == <<91, 46, 46, 46, 93>>       \* [...]
\* excerpt x of line t with pad blanks before the marker, for a piece at column col (from 0) of length len
Window(x, t, pad, mark, col, len) ==
    LET o == col - pad                              \* what is cut off on the left
        n == Len(t) - o                             \* length without cut on the right
        cut == n > Len(x)
        hi == IF cut THEN Len(x) - 5 ELSE Len(x)
    IN /\ o >= 0 /\ Len(x) <= 80 /\ (cut \/ n = Len(x)) /\ (cut => Len(x) >= 6)
       /\ (o > 0 => SubSeq(x, 1, 5) = DOTS /\ pad >= 5)
       /\ (cut => SubSeq(x, Len(x) - 4, Len(x)) = DOTS)
       /\ pad < hi
       /\ \A i \in (IF o > 0 THEN 6 ELSE 1)..hi : x[i] = t[o + i]
       /\ mark >= 1 /\ mark = Min2(len, Len(x) - pad)
\* w: where the report says the piece is, [line, char, text, pad, mark].  A piece of several bytes which begins
\* with no graphic character (only possible if whitespace does not matter) may be marked in part.
Located(w, s, e) == LET b == LineStart(s) + w.char IN
    /\ w.line = LineNo(s)
    /\ IF IsGraph(input[s]) \/ e = s + 1 THEN b = s ELSE b \in s..(e - 1)
    /\ Window(w.text, Shown(s), w.pad, w.mark, w.char, IF IsGraph(input[s]) THEN e - s ELSE IF e = s + 1 THEN 1 ELSE Min2(e - b, w.mark))

\* --- the values in the reason
Dig(c) == c \in 48..57
NumByte(c) == Dig(c) \/ c \in {45, 46}
RECURSIVE Numbers(_, _, _)
Numbers(t, i, cur) ==     \* all numbers in the text t, in order
    IF i > Len(t) THEN IF \E j \in DOMAIN cur : Dig(cur[j]) THEN <<cur>> ELSE <<>>
    ELSE IF NumByte(t[i]) THEN Numbers(t, i + 1, Append(cur, t[i]))
    ELSE (IF \E j \in DOMAIN cur : Dig(cur[j]) THEN <<cur>> ELSE <<>>) \o Numbers(t, i + 1, <<>>)
RECURSIVE FindIn(_, _, _)
FindIn(x, t, i) == IF i + Len(x) - 1 > Len(t) THEN 0 ELSE IF SubSeq(t, i, i + Len(x) - 1) = x THEN i ELSE FindIn(x, t, i + 1)
HasText(x, t) == FindIn(x, t, 1) # 0
\* x is the text t, or pieces of it joined by [...]; the position p (1-based, if inside) has to be visible
Elided(x, t, p) ==
    \/ x = t
    \/ \E a \in 5..Len(t) :
        /\ a + 5 <= Len(x) /\ SubSeq(x, 1, a) = SubSeq(t, 1, a) /\ SubSeq(x, a + 1, a + 5) = DOTS
        /\ \/ Len(x) = a + 5 /\ a < Len(t) /\ (p <= a \/ p > Len(t))
           \/ \E b \in (a + 1)..Len(t) : \E c \in {Len(t), b + Len(x) - a - 11} :
                 /\ c \in b..Len(t) /\ p \in b..c
                 /\ SubSeq(x, a + 6, Len(x)) = SubSeq(t, b, c) \o (IF c < Len(t) THEN DOTS ELSE <<>>)
\* first difference, 1-based
FirstDiff(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                       D == {i \in 1..m : a[i] # b[i]} IN
                   IF D # {} THEN CHOOSE i \in D : \A j \in D : i <= j ELSE m + 1
\* --- reasons.  k: what was read (as in Reader), t: the token as returned, r: the reason
Ints(q) == [i \in DOMAIN q |-> ZText(q[i])]
Reals(q) == [i \in DOMAIN q |-> Fixed(q[i])]
T3(x) == ZMul(x, ZInt(1000))
ZeroNum(t) == \A i \in DOMAIN t : Dig(t[i]) => t[i] = 48
LikeNum(a, b) == a = b \/ (ZeroNum(a) /\ ZeroNum(b) /\ a = <<45>> \o b)      \* a minus zero is a zero
LikeNums(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN b : LikeNum(a[i], b[i])
RangeIs(r, q) == LikeNums(Numbers(r, 1, <<>>), q)
WhyElem(k, t, r) == LET len == ZInt(Len(t)) IN
    CASE k.k = "str" -> IF k.b /\ ~InRange(len, k.lo, k.hi) THEN RangeIs(r, Ints(<<len, k.lo, k.hi>>)) ELSE HasText(t, r)
      [] k.k = "int" -> IF IntToken(t) THEN RangeIs(r, Ints(<<ZFrom(t), k.lo, k.hi>>)) ELSE HasText(t, r)
      [] k.k = "real" -> IF RealToken(t) THEN RangeIs(r, Reals(<<Thousandths(t), T3(k.lo), T3(k.hi)>>)) ELSE HasText(t, r)
      [] k.k = "rs" -> IF StrictReal(t) /\ Decimals(t) >= k.dlo /\ Decimals(t) < k.dhi
                       THEN RangeIs(r, Reals(<<Thousandths(t), T3(k.lo), T3(k.hi)>>)) ELSE HasText(t, r)
\* the relative difference p (millionths) of d and x (thousandths): within one of the exact one
Ratio(p, d, x) == ZLe(ZAbs(ZSub(ZMul(p, ZAbs(x)), ZMul(ZAbs(d), ZInt(1000000)))), ZAbs(x))
Millionths(t) == ZFrom(SelectSeq(t, LAMBDA c : c # 46))
WhyExpect(x, t, r) ==
    CASE x.t = "int" -> IF IntToken(t) THEN RangeIs(r, <<x.val, t>>) ELSE HasText(t, r)
      [] x.t = "real" -> IF ~RealToken(t) THEN HasText(t, r)
                         ELSE LET n == Numbers(r, 1, <<>>)
                                  a == Thousandths(x.val)  b == Thousandths(t)  d == ZAbs(ZSub(a, b)) IN
                              /\ Len(n) >= 3 /\ LikeNums(SubSeq(n, 1, 3), Reals(<<a, b, d>>))
                              /\ (a.m # <<>> => Len(n) = 4 /\ Ratio(Millionths(n[4]), d, a))
      [] x.t = "str" -> \* Expected "..." but got "..."! (different at position: p)
           LET w == Fold(x.val)  p == FirstDiff(w, t)
               e == 10                                              \* Expected, blank, quote
           IN /\ SubSeq(r, 1, e) = <<69,120,112,101,99,116,101,100,32,34>>
              /\ \E m \in (e + 1)..Len(r), z \in (e + 1)..Len(r) :   \* quotes around both texts
                    /\ z > m + 10 /\ r[m] = 34 /\ r[z] = 34 /\ SubSeq(r, m, m + 10) = <<34,32,98,117,116,32,103,111,116,32,34>>
                    /\ Elided(SubSeq(r, e + 1, m - 1), x.val, p) /\ Elided(SubSeq(r, m + 11, z - 1), t, p)
                    /\ Numbers(SubSeq(r, z + 1, Len(r)), 1, <<>>) = IF p > 6 THEN Ints(<<ZInt(p)>>) ELSE <<>>
WordSpace == <<115,112,97,99,101>>
WordNewline == <<110,101,119,108,105,110,101>>
WordEOF == <<69,79,70>>
===========================================================================
