-------------------------------- MODULE Xml --------------------------------
(* Reader for XML documents (no entities, no DTD) as a state machine which  *)
(* takes one byte after the other.  x.st = "bad" when the bytes cannot be   *)
(* the beginning of a document; x.out collects declarations, elements and   *)
(* comments in order, each with its depth; text has to be white space.      *)
EXTENDS Integers, Sequences
XSpace == {9, 10, 13, 32}
NameStart == (65..90) \cup (97..122) \cup {95, 58}
NameByte == NameStart \cup (48..57) \cup {45, 46}
XBad(x) == [x EXCEPT !.st = "bad"]
X0 == [st |-> "text", open |-> <<>>, name |-> <<>>, attrs |-> <<>>, key |-> <<>>, val |-> <<>>, q |-> 0, out |-> <<>>, n |-> 0, root |-> FALSE]
Names(attrs) == {attrs[i][1] : i \in DOMAIN attrs}
Item(x, kind, rest) == Append(x.out, [k |-> kind, name |-> x.name, attrs |-> x.attrs, depth |-> Len(x.open), text |-> rest])
Open(x) == IF x.open = <<>> /\ x.root THEN XBad(x) ELSE [x EXCEPT !.out = Item(x, "el", <<>>), !.open = Append(@, x.name), !.st = "text", !.root = TRUE]
Empty(x) == IF x.open = <<>> /\ x.root THEN XBad(x) ELSE [x EXCEPT !.out = Item(x, "el", <<>>), !.st = "text", !.root = TRUE]
Close(x) == IF x.open = <<>> \/ x.open[Len(x.open)] # x.name THEN XBad(x) ELSE [x EXCEPT !.open = SubSeq(@, 1, Len(@) - 1), !.st = "text"]
Decl(x) == IF x.n # 0 \/ x.name # <<120, 109, 108>> THEN XBad(x) ELSE [x EXCEPT !.out = Item(x, "decl", <<>>), !.st = "text"]
CommentText(v) == SubSeq(v, 1, Len(v) - 3)
XByte(x, b) ==
   CASE x.st = "text" -> IF b = 60 THEN [x EXCEPT !.st = "lt", !.name = <<>>, !.attrs = <<>>] ELSE IF b \in XSpace THEN [x EXCEPT !.n = 1] ELSE XBad(x)
     [] x.st = "lt" -> IF b = 63 THEN [x EXCEPT !.st = "pi"] ELSE IF b = 47 THEN [x EXCEPT !.st = "end", !.n = 1] ELSE IF b = 33 THEN [x EXCEPT !.st = "bang", !.val = <<>>, !.n = 1]
                       ELSE IF b \in NameStart THEN [x EXCEPT !.st = "name", !.name = <<b>>, !.q = 0, !.n = 1] ELSE XBad(x)
     [] x.st = "pi" -> IF b \in NameByte THEN [x EXCEPT !.name = Append(@, b)] ELSE IF b \in XSpace THEN [x EXCEPT !.st = "attrs", !.q = 63] ELSE XBad(x)
     [] x.st = "name" -> IF b \in NameByte THEN [x EXCEPT !.name = Append(@, b)] ELSE IF b \in XSpace THEN [x EXCEPT !.st = "attrs"]
                         ELSE IF b = 62 THEN Open(x) ELSE IF b = 47 THEN [x EXCEPT !.st = "slash"] ELSE XBad(x)
     \* between attributes; after a value a space has to follow
     [] x.st = "attrs" -> IF b \in XSpace THEN x ELSE IF b \in NameStart THEN [x EXCEPT !.st = "key", !.key = <<b>>]
                          ELSE IF b = 62 /\ x.q = 0 THEN Open(x) ELSE IF b = 47 /\ x.q = 0 THEN [x EXCEPT !.st = "slash"] ELSE IF b = 63 /\ x.q = 63 THEN [x EXCEPT !.st = "pislash"] ELSE XBad(x)
     [] x.st = "valued" -> IF b \in XSpace THEN [x EXCEPT !.st = "attrs"] ELSE IF b = 62 /\ x.q = 0 THEN Open(x) ELSE IF b = 47 /\ x.q = 0 THEN [x EXCEPT !.st = "slash"]
                           ELSE IF b = 63 /\ x.q = 63 THEN [x EXCEPT !.st = "pislash"] ELSE XBad(x)
     [] x.st = "key" -> IF b \in NameByte THEN [x EXCEPT !.key = Append(@, b)] ELSE IF b = 61 THEN [x EXCEPT !.st = "quote"] ELSE XBad(x)
     [] x.st = "quote" -> IF b = 34 THEN IF x.key \in Names(x.attrs) THEN XBad(x) ELSE [x EXCEPT !.st = "value", !.val = <<>>] ELSE XBad(x)
     [] x.st = "value" -> IF b = 34 THEN [x EXCEPT !.st = "valued", !.attrs = Append(@, <<x.key, x.val>>)] ELSE IF b \in {60, 38} THEN XBad(x) ELSE [x EXCEPT !.val = Append(@, b)]
     [] x.st = "slash" -> IF b = 62 THEN Empty(x) ELSE XBad(x)
     [] x.st = "pislash" -> IF b = 62 THEN [Decl(x) EXCEPT !.n = 1, !.q = 0] ELSE XBad(x)
     [] x.st = "end" -> IF b \in NameByte THEN [x EXCEPT !.name = Append(@, b)] ELSE IF b = 62 THEN Close(x) ELSE XBad(x)
     [] x.st = "bang" -> IF b # 45 THEN XBad(x) ELSE IF x.val = <<>> THEN [x EXCEPT !.val = <<45>>] ELSE [x EXCEPT !.st = "comment", !.val = <<>>]
     \* two dashes only at the end of a comment
     [] x.st = "comment" -> LET v == Append(x.val, b)  m == Len(x.val) IN
            IF m >= 2 /\ x.val[m] = 45 /\ x.val[m - 1] = 45 THEN IF b = 62 THEN [x EXCEPT !.out = Item([x EXCEPT !.name = <<>>, !.attrs = <<>>], "comment", CommentText(v)), !.st = "text"] ELSE XBad(x)
            ELSE [x EXCEPT !.val = v]
     [] OTHER -> XBad(x)
RECURSIVE ReadFrom(_, _, _)
ReadFrom(x, s, i) == IF i > Len(s) \/ x.st = "bad" THEN x ELSE ReadFrom(XByte(x, s[i]), s, i + 1)
XRead(x, s) == ReadFrom(x, s, 1)
Complete(x) == x.st = "text" /\ x.open = <<>> /\ x.root
Attr(it, key) == LET i == CHOOSE i \in DOMAIN it.attrs : it.attrs[i][1] = key IN it.attrs[i][2]
============================================================================
