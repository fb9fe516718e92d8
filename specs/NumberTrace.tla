---------------------------- MODULE NumberTrace ----------------------------
(* Judges recorded reads of numeric tokens (InputStream and isInteger/isReal). *)
EXTENDS RealNum, TraceKit
VARIABLE last
vars == <<last, l>>
TInit == TKInit /\ last = <<>>
Decide(ok) == last' = <<Ev.e, ok>>

\* integers.  ok: returned; otherwise the verdict of the stream
IntEv == /\ Is("int")
         /\ LET ok == IntToken(Ev.tok) /\ (Ev.b => InRange(ZFrom(Ev.tok), ZFrom(Ev.lo), ZFrom(Ev.hi)))
            IN /\ Decide(ok)
               /\ Ev.code = IF ok THEN 0 ELSE Ev.onFail
               /\ ok => Ev.res = Ev.tok
IsIntEv == /\ Is("isint")
           /\ Decide(IntToken(Ev.tok))
           /\ Ev.ok = IntToken(Ev.tok) /\ Ev.has = Ev.ok /\ (Ev.ok => Ev.res = Ev.tok)
----------------------------------------------------------------------------
ResOK(t, res) == Moderate(t) => Rounded(res, t, Ev.bits)
IsRealEv == /\ Is("isreal") /\ Fits(Parse(Ev.tok, RealToken), Ev.ok) /\ Ev.has = Ev.ok
            /\ (Ev.ok => ResOK(Ev.tok, Ev.res)) /\ Decide(Ev.ok)
RealEv == /\ Is("real") /\ Decide(Ev.code = 0)
          /\ Fits(Parse(Ev.tok, RealToken), Ev.code = 0)
          /\ Ev.code \in {0, Ev.onFail}
          /\ (Ev.code = 0 => ResOK(Ev.tok, Ev.res))
\* v: the correctly rounded value of the token (its rounding is verified here)
StrictEv == /\ Is("strict") /\ Decide(Ev.code = 0)
            /\ LET t == Ev.tok
                   g == StrictReal(t) /\ Decimals(t) >= Ev.dlo /\ Decimals(t) < Ev.dhi
                   ok == g /\ ~RLt(Ev.v, Ev.lo) /\ RLt(Ev.v, Ev.hi)
               IN /\ g => Rounded(Ev.v, t, 63)
                  /\ Ev.code = IF ok THEN 0 ELSE Ev.onFail
                  /\ ok => SameNum(Ev.res, Ev.v)
----------------------------------------------------------------------------
\* equality and its one-sided variants at most / at least: the order, or equality
OrEqual(ordered, t) == IF Ev.g.c # "nan" /\ Ev.x.c # "nan" /\ ordered THEN "yes" ELSE t
EqualEv == /\ Is("feq") /\ Decide(Ev.res)
           /\ LET t == Tol(Ev.g, Ev.x, Ev.a, Ev.r)
              IN /\ Fits(t, Ev.res) /\ Fits(t, Ev.vq)
                 /\ Fits(OrEqual(~RLt(Ev.x, Ev.g), t), Ev.le)
                 /\ Fits(OrEqual(~RLt(Ev.g, Ev.x), t), Ev.ge)
\* reading a real with bounds: inside [lo,hi) or tolerance-equal to a bound
BoundEv == /\ Is("rbound") /\ Decide(Ev.code = 0)
           /\ Ev.code \in {0, Ev.onFail}
           /\ LET g == Parse(Ev.tok, RealToken) # "no"
                  t1 == Tol(Ev.v, Ev.lo, Ev.a, Ev.r)
                  t2 == Tol(Ev.v, Ev.hi, Ev.a, Ev.r)
                  in == ~RLt(Ev.v, Ev.lo) /\ RLt(Ev.v, Ev.hi)
              IN IF ~g THEN Ev.code = Ev.onFail
                 ELSE IF ~Moderate(Ev.tok) THEN TRUE
                 ELSE /\ Rounded(Ev.v, Ev.tok, 63)
                      /\ Fits(IF in \/ t1 = "yes" \/ t2 = "yes" THEN "yes" ELSE IF t1 = "no" /\ t2 = "no" THEN "no" ELSE "any", Ev.code = 0)
                      /\ Ev.code = 0 => SameNum(Ev.res, Ev.v)
ExpectRealEv == /\ Is("xreal") /\ Decide(Ev.code = 0)
                /\ Ev.code \in {0, Ev.onFail}
                /\ IF Parse(Ev.tok, RealToken) = "no" THEN Ev.code = Ev.onFail
                   ELSE Moderate(Ev.tok) => (Rounded(Ev.v, Ev.tok, 63) /\ Fits(Tol(Ev.v, Ev.x, Ev.a, Ev.r), Ev.code = 0))
Next == IntEv \/ IsIntEv \/ IsRealEv \/ RealEv \/ StrictEv \/ EqualEv \/ BoundEv \/ ExpectRealEv
TraceSpec == TInit /\ [][Next]_vars
============================================================================
