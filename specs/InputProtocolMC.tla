------------------------- MODULE InputProtocolMC -------------------------
(* Exhaustive model: every byte string over a small alphabet up to MaxLen,  *)
(* every script of reads.  hist is the script so far (hidden by the VIEW):  *)
(* every transition of the state graph is printed once, with a shortest     *)
(* script leading to it, and replayed against the implementation.           *)
EXTENDS InputProtocol, TLC, Json
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES hist, out     \* script so far; what each read consumed

Strings == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == /\ input \in Strings /\ strict \in BOOLEAN
        /\ pos = 1 /\ dead = FALSE /\ hist = <<>> /\ out = <<>>

Step(op, o) == /\ hist' = Append(hist, op) /\ out' = Append(out, o)
               /\ Emit => PrintT("@@" \o ToJson([s |-> strict, i |-> input, h |-> hist', d |-> dead']))

Next == \/ \E t \in {Token} : ReadToken(t) /\ Step("tok", t)
        \/ ReadSep(SP) /\ Step("sp", <<SP>>)
        \/ ReadSep(NL) /\ Step("nl", <<NL>>)
        \/ ReadEof /\ Step("eof", <<>>)
        \/ ReadNotEof /\ Step("neof", <<>>)
        \/ FailToken /\ Step("tok", <<>>)
        \/ FailSep(SP) /\ Step("sp", <<>>)
        \/ FailSep(NL) /\ Step("nl", <<>>)
        \/ FailEof /\ Step("eof", <<>>)
        \/ FailNotEof /\ Step("neof", <<>>)
View == ipvars
Spec == Init /\ [][Next]_<<ipvars, hist, out>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Tokens(_)
Tokens(s) == LET a == SkipFrom(s, 1) IN
             IF a > Len(s) THEN <<>>
             ELSE LET b == RunEnd(s, a) IN <<SubSeq(s, a, b - 1)>> \o Tokens(SubSeq(s, b, Len(s)))
Toks == SelectSeq(out, LAMBDA t : t # <<>> /\ ~IsSpace(t[1]))

\* C01: what was consumed so far is exactly the concatenation of the pieces the reads named
StrictLayout == strict => SubSeq(input, 1, pos - 1) = Concat(out)
\* C02: only the token sequence matters, tokens come out in order, none is lost or invented
LenientTokens == ~strict => LET T == Tokens(input) IN
    /\ Len(Toks) <= Len(T) /\ \A i \in DOMAIN Toks : Toks[i] = T[i]
    /\ (AtEnd <=> Len(Toks) = Len(T))
\* a verdict is final, and in a strict stream a successful script determines the input
Final == [][~dead]_<<ipvars, hist, out>>
TypeOK == pos \in 1..(Len(input) + 1)
==========================================================================
