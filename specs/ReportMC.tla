------------------------------ MODULE ReportMC ------------------------------
(* The scan that finds the refused piece: from the start of the input, piece *)
(* by piece, up to the position of the stream; and the window arithmetic of  *)
(* the excerpt.  Both against the definitions of Report.                     *)
EXTENDS Report, TLC
CONSTANTS MaxLen
VARIABLES at, stop, line, buf, lo, hi, more, done
vars == <<rdvars, at, stop, line, buf, lo, hi, more, done>>
Alphabet == {97, 1, 32, 10}
\* where the stream may stand when a read is refused: after a token, or after one byte
Stops(p) == LET pc == Piece(p) IN IF pc[1] = 0 THEN {} ELSE {pc[2], pc[1] + 1}
\* positions at which a read may begin: the start, after a token or a separator
Begins == {p \in 1..(Len(input) + 1) : p = 1 \/ IsSpace(input[p - 1]) \/ (p <= Len(input) /\ IsSpace(input[p])) \/ p > Len(input)}
\* a strict stream can only come so far if every token before begins with a graphic character
Reachable(p) == strict => \A i \in 1..(p - 1) : IsGraph(input[i]) \/ IsSpace(input[i]) \/ (i > 1 /\ ~IsSpace(input[i - 1]))
Init == /\ input \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} /\ strict \in BOOLEAN
        /\ pos \in {p \in Begins : Reachable(p)} /\ stop \in Stops(pos)
        /\ dead = TRUE /\ cs = TRUE /\ cons = <<>> /\ order = <<>>
        /\ at = 1 /\ line = 1 /\ buf = <<>> /\ lo = 0 /\ hi = 0 /\ more = TRUE /\ done = FALSE
Step == /\ ~done /\ at < stop
        /\ UNCHANGED <<rdvars, stop, done>>
        /\ LET e == IF IsGraph(input[at]) THEN RunEnd(input, at) ELSE at + 1
               nl == input[at] = NL
               ends == e >= stop
               b == IF IsGraph(input[at]) THEN buf \o SubSeq(input, at, e - 1)
                    ELSE IF ~nl THEN Append(buf, input[at])
                    ELSE IF ends THEN Append(buf, SP) ELSE <<>>
           IN /\ at' = e /\ buf' = b /\ lo' = Len(buf) /\ hi' = (IF ends THEN Len(b) ELSE Len(buf))
              /\ line' = (IF nl /\ ~ends THEN line + 1 ELSE line) /\ more' = (IF nl /\ ends THEN FALSE ELSE more)
Finish == /\ ~done /\ at >= stop /\ done' = TRUE
          /\ buf' = (IF more THEN buf \o SubSeq(input, at, LineEnd(at) - 1) ELSE buf)
          /\ UNCHANGED <<rdvars, at, stop, line, lo, hi, more>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* the report is right
Right == done => LET pc == Piece(pos)  s == pc[1] IN
    /\ hi > lo /\ buf = Shown(s)
    /\ Located([line |-> line, char |-> lo, text |-> buf, pad |-> lo, mark |-> hi - lo], s, pc[2])
\* the window: line of n distinct bytes, piece at l of length k
Line(n) == [i \in 1..n |-> 1000 + i]
Dots(x, lim) == IF Len(x) > lim THEN SubSeq(x, 1, lim - 5) \o DOTS ELSE x
Cut(n, l, k) == LET r == l + k
                    o == IF r > 60 /\ l > 20 THEN Min2(l - 20, r - 60) ELSE 0
                    x == Dots(IF o > 0 THEN DOTS \o SubSeq(Line(n), o + 6, n) ELSE Line(n), 80)
                IN [text |-> x, pad |-> l - o, mark |-> Min2(r - o, Len(x)) - (l - o)]
Lens == {1, 2, 5, 39, 40, 41, 42, 59, 60, 61, 79, 80, 81, 100}
Rests == {0, 1, 4, 5, 6, 19, 20, 21, 79, 80, 81}
ASSUME \A l \in 0..110 : \A k \in Lens : \A q \in Rests :
    LET w == Cut(l + k + q, l, k) IN Window(w.text, Line(l + k + q), w.pad, w.mark, l, k)
\* ... and it would not accept a marker which is off by one, or another line
ASSUME \A l \in {0, 3, 30, 90} : \A k \in {1, 7, 70} : \A q \in {0, 9, 90} :
    LET w == Cut(l + k + q, l, k) IN
    /\ ~Window(w.text, Line(l + k + q), w.pad + 1, w.mark, l, k) /\ ~Window(w.text, Line(l + k + q), w.pad, w.mark + 1, l, k)
    /\ ~Window(w.text, Line(l + k + q), w.pad, w.mark, l + 1, k)
ASSUME LET a == <<97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108>> IN
    Elided(a, a, 3) /\ Elided(SubSeq(a, 1, 6) \o DOTS, a, 4) /\ ~Elided(SubSeq(a, 1, 6) \o DOTS, a, 7)
    /\ Elided(SubSeq(a, 1, 5) \o DOTS \o SubSeq(a, 8, 10) \o DOTS, a, 9) /\ ~Elided(SubSeq(a, 1, 5) \o DOTS \o SubSeq(a, 8, 10), a, 9)
    /\ Elided(SubSeq(a, 1, 5) \o DOTS \o SubSeq(a, 8, 12), a, 9)
=============================================================================
