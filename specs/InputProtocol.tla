-------------------------- MODULE InputProtocol --------------------------
(* The token reader as a state machine over a byte string.                  *)
(*                                                                          *)
(*   input   the bytes of the stream          pos   next unread byte        *)
(*   strict  whitespace-sensitive stream      dead  verdict was issued      *)
(*                                                                          *)
(* Each read is one atomic action; a read that cannot be satisfied issues   *)
(* the verdict and no further action is possible (the process is gone).     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES input, pos, strict, dead
ipvars == <<input, pos, strict, dead>>

IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
IsGraph(c) == c \in 33..126
SP == 32
NL == 10

\* first position >= p that holds a non-whitespace byte (Len+1 if none)
RECURSIVE SkipFrom(_, _)
SkipFrom(s, p) == IF p <= Len(s) /\ IsSpace(s[p]) THEN SkipFrom(s, p + 1) ELSE p
\* first position >= p that holds a whitespace byte (Len+1 if none)
RECURSIVE RunEnd(_, _)
RunEnd(s, p) == IF p <= Len(s) /\ ~IsSpace(s[p]) THEN RunEnd(s, p + 1) ELSE p

Start(s)  == IF strict THEN pos ELSE SkipFrom(s, pos)
AtEnd     == Start(input) > Len(input)

\* what a token read would do
TokenOk   == ~AtEnd /\ (strict => IsGraph(input[pos]))
TokenEnd  == RunEnd(input, Start(input))
Token     == SubSeq(input, Start(input), TokenEnd - 1)

SepOk(c)  == strict => (~AtEnd /\ input[pos] = c)

\* ----------------------------------------------------------------- actions
ReadToken(res) == /\ ~dead /\ TokenOk /\ res = Token
                  /\ pos' = TokenEnd /\ UNCHANGED <<input, strict, dead>>
ReadSep(c)     == /\ ~dead /\ SepOk(c)
                  /\ pos' = (IF strict THEN pos + 1 ELSE pos) /\ UNCHANGED <<input, strict, dead>>
ReadEof        == /\ ~dead /\ AtEnd /\ UNCHANGED ipvars
ReadNotEof     == /\ ~dead /\ ~AtEnd /\ UNCHANGED ipvars
\* failing reads
Die            == dead' = TRUE /\ UNCHANGED <<input, pos, strict>>
FailToken      == ~dead /\ ~TokenOk  /\ Die
FailSep(c)     == ~dead /\ ~SepOk(c) /\ Die
FailEof        == ~dead /\ ~AtEnd    /\ Die
FailNotEof     == ~dead /\ AtEnd     /\ Die
==========================================================================
