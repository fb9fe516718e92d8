---------------------------- MODULE NumberScan ----------------------------
(* Reading numeric tokens as a machine: a token arrives byte by byte, three *)
(* scanners (integer, real, strict real) move along, and at the end of the  *)
(* token the read is decided.  The scanners are the operational form of the *)
(* grammar in Tokens; the model check shows both agree on every word.       *)
EXTENDS Tokens, TLC, Json
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES word, qi, qr, qs
vars == <<word, qi, qr, qs>>

C(c) == IF c = 48 THEN "0" ELSE IF Digit(c) THEN "d" ELSE IF c = MINUS THEN "-" ELSE IF c = PLUS THEN "+"
        ELSE IF c = DOT THEN "." ELSE IF c \in {69, 101} THEN "e" ELSE "x"
IntStep(q, c) ==
    CASE q = "start" /\ C(c) = "0" -> "zero"
      [] q = "start" /\ C(c) = "d" -> "num"
      [] q = "start" /\ C(c) = "-" -> "sign"
      [] q = "sign"  /\ C(c) = "d" -> "num"
      [] q = "num"   /\ C(c) \in {"0", "d"} -> "num"
      [] OTHER -> "dead"
IntFinal == {"zero", "num"}
RealStep(q, c) ==
    CASE q = "start" /\ C(c) \in {"+", "-"} -> "sign"
      [] q \in {"start", "sign"} /\ C(c) \in {"0", "d"} -> "int"
      [] q \in {"start", "sign"} /\ C(c) = "." -> "dot"
      [] q = "int" /\ C(c) \in {"0", "d"} -> "int"
      [] q = "int" /\ C(c) = "." -> "point"
      [] q \in {"dot", "point", "frac"} /\ C(c) \in {"0", "d"} -> "frac"
      [] q \in {"int", "point", "frac"} /\ C(c) = "e" -> "e"
      [] q = "e" /\ C(c) \in {"+", "-"} -> "esign"
      [] q \in {"e", "esign", "exp"} /\ C(c) \in {"0", "d"} -> "exp"
      [] OTHER -> "dead"
RealFinal == {"int", "point", "frac", "exp"}
StrictStep(q, c) ==
    CASE q = "start" /\ C(c) = "-" -> "sign"
      [] q \in {"start", "sign"} /\ C(c) = "0" -> "zero"
      [] q \in {"start", "sign"} /\ C(c) = "d" -> "int"
      [] q = "int" /\ C(c) \in {"0", "d"} -> "int"
      [] q \in {"zero", "int"} /\ C(c) = "." -> "frac"
      [] q = "frac" /\ C(c) \in {"0", "d"} -> "frac"
      [] OTHER -> "dead"
StrictFinal == {"zero", "int", "frac"}

Out == Emit => PrintT("@@" \o ToJson(word'))
Init == word = <<>> /\ qi = "start" /\ qr = "start" /\ qs = "start"
Next == \E c \in Alphabet :
          /\ Len(word) < MaxLen /\ word' = Append(word, c)
          /\ qi' = IntStep(qi, c) /\ qr' = RealStep(qr, c) /\ qs' = StrictStep(qs, c)
          /\ Out
Spec == Init /\ [][Next]_vars

Grammar == /\ (qi \in IntFinal)    <=> CanonInt(word)
           /\ (qr \in RealFinal)   <=> RealToken(word)
           /\ (qs \in StrictFinal) <=> StrictReal(word)
\* every integer token is a strict real token, every strict real token a real token
Nested == /\ CanonInt(word) => StrictReal(word)
          /\ StrictReal(word) => RealToken(word)
\* dead scanners stay dead
DeadEnd == [][(qi = "dead" => qi' = "dead") /\ (qr = "dead" => qr' = "dead") /\ (qs = "dead" => qs' = "dead")]_vars
\* small numbers: the arithmetic of BigNat is the arithmetic of the integers
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE 10 * Val(SubSeq(d, 1, Len(d) - 1)) + (d[Len(d)] - 48)
Values == CanonInt(word) => LET v == IF word[1] = MINUS THEN -Val(Tail(word)) ELSE Val(word) IN
    /\ ZFrom(word) = ZInt(v) /\ IntToken(word)
    /\ \A k \in {-100, -11, -10, -1, 0, 1, 9, 10, 99, 100} :
         /\ ZLt(ZInt(k), ZInt(v)) <=> k < v
         /\ ZAdd(ZInt(k), ZInt(v)) = ZInt(k + v)
         /\ ZSub(ZInt(k), ZInt(v)) = ZInt(k - v)
         /\ ZMul(ZInt(k), ZInt(v)) = ZInt(k * v)
ASSUME Sub(Mul(P2Tab[101], P2Tab[101]), Pow2(200)) = <<>>
ASSUME FromDigits(<<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>) = MinI
===========================================================================
