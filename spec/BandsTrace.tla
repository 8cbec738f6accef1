------------------------------ MODULE BandsTrace ----------------------------
(* Logged band objects: kind, p, mult, in (columns), calls in order with      *)
(* their results, alts (same object with other future rows), io.              *)
EXTENDS Lin, TraceKit, SequencesExt
VARIABLES k, fails, f, p, bars, aux, outs, obj, calls
ThePi == FParse("3.141592653589793")
TC(x) == F0
INSTANCE Feat WITH NInt <- FInt, NQ <- FQ, NaN <- FNaN, IsNaN <- FIsNaN, Add <- FAdd, Sub <- FSub, Mul <- FMul, Div <- FDiv,
  Lt <- FLt, Eq <- FEq, Sum <- FSum, Dot <- FDot, VMax <- FVMax, VMin <- FVMin, IPow <- FIPow,
  Sqrt <- FSqrt, Log <- FLog, Exp <- FExp, TCdf <- TC, Pi <- ThePi
Bd == INSTANCE Bands WITH Add <- FAdd, Sub <- FSub, Mul <- FMul, Div <- FDiv, Two <- F2
tvars == <<k, fails, f, p, bars, aux, outs, obj, calls>>
R == Trace[k]
E(s) == FParse(s)
M == E(R.mult)
TraceInit ==
  /\ \E i \in 1..NRec : /\ k = i
                        /\ LET c == Trace[i].in IN Start(Trace[i].kind, Trace[i].p, [x \in DOMAIN c |-> FParseSeq(c[x])])
  /\ fails = <<>> /\ obj = <<>> /\ calls = <<>>
(* First the online machine runs over the bars: outs[t] = <<middle, width>>.  *)
Row(t) == IF f = "generic" THEN [x |-> X("x", t), m |-> X("m", t), s |-> X("s", t)] ELSE [x |-> X("x", t), r |-> IF f = "keltner" THEN TrueRange(t) ELSE F0]
MidWid(a) ==
  CASE f = "bollinger" -> <<RollMean(a, "x", p.w), FSqrt(RollVar(a, "x", p.w))>>
    [] f = "ewm" -> <<EwMean(a, "x", SpanDecay(p.w), 1), FSqrt(EwVar(a, "x", SpanDecay(p.w)))>>
    [] f = "keltner" -> <<EwMean(a, "x", SpanDecay(p.w), 1), EwMean(a, "r", AtrDecay(p.w2), 1)>>
    [] f = "generic" -> <<a[Len(a)].m, a[Len(a)].s>>
    [] f = "donchian" -> LET u == RollMax(a, "x", p.w)  d == RollMin(a, "x", p.w) IN <<FDiv(FAdd(u, d), F2), FDiv(FSub(u, d), F2)>>
TBar == /\ R.r = "ok" /\ Now <= NBars
        /\ aux' = Append(aux, Row(Now))
        /\ outs' = Append(outs, MidWid(aux'))
        /\ UNCHANGED <<k, fails, f, p, bars, obj, calls>>
Scale == FVMax(FVAbs(bars.x \o (IF f = "keltner" THEN bars.h \o bars.l ELSE IF f = "generic" THEN bars.m \o bars.s ELSE <<>>)))
(* Then the logged calls are taken one by one. *)
Good(c) == c.r = "ok" /\ Len(c.out) = NBars
TCall == /\ R.r = "ok" /\ AtEnd /\ Len(calls) < Len(R.calls)
         /\ LET c == R.calls[Len(calls) + 1]
                o == IF Good(c) THEN FParseSeq(c.out) ELSE <<>>
                prior == {i \in 1..Len(calls) : calls[i].m = c.m}
            IN /\ calls' = Append(calls, [m |-> c.m, v |-> o])
               /\ fails' = fails
                    \o Chk(Good(c), "C15 " \o f \o " " \o c.m \o " raises or has the wrong length")
                    \o Chk(Good(c), "C12 " \o f \o " " \o c.m \o " raises or has the wrong length")
                    \o Chk(c.cont = R.form /\ c.index, "C13 " \o f \o " " \o c.m \o " does not keep the container and index")
                    \o Chk(\A i \in prior : FVClose(calls[i].v, o, F0, F0), "C15 " \o f \o " " \o c.m \o " changes with earlier calls")
         /\ UNCHANGED <<k, f, p, bars, aux, outs, obj>>
Get(m) == calls[CHOOSE i \in 1..Len(calls) : calls[i].m = m].v
Complete == \A i \in 1..Len(calls) : calls[i].v # <<>>
T9 == FMul(E("1e-9"), Scale)
Rows ==
  LET up == Get("upper")  md == Get("middle")  lo == Get("lower")  bw == Get("bandwidth")  pb == Get("percent_b")
      Both(a, b, tol) == FClose(a, b, E("1e-9"), tol)
      std == f \in {"bollinger", "ewm"}
      mid == \A t \in 1..NBars : FClose(md[t], outs[t][1], E("1e-9"), FMul(E("1e-12"), Scale))
      wid == \A t \in 1..NBars :
               LET h == FSub(up[t], md[t])  w == FMul(M, outs[t][2]) IN
               IF std THEN FIsNaN(h) = FIsNaN(w) /\ FClose(FSq(h), FSq(w), E("1e-6"), FMul(E("1e-11"), FSq(FMul(FMax(FAbs(M), F1), Scale))))
               ELSE FClose(h, w, E("1e-8"), FMul(E("1e-11"), FMul(FMax(FAbs(M), F1), Scale)))
      sym == \A t \in 1..NBars : Both(FSub(up[t], md[t]), FSub(md[t], lo[t]), FMul(E("1e-12"), FMul(FAdd(FAbs(M), F1), Scale)))
      bwd == \A t \in 1..NBars : FLe(FAbs(md[t]), FMul(E("1e-6"), Scale)) \/ Both(FMul(bw[t], md[t]), FSub(up[t], lo[t]), FMul(E("1e-12"), FMul(FAdd(FAbs(M), F1), Scale)))
      Zero2(t) == FLe(FAbs(FSub(up[t], lo[t])), FMul(E("1e-13"), Scale))
      pct == \A t \in 1..NBars :
               IF FIsNaN(up[t]) THEN FIsNaN(pb[t])
               ELSE Zero2(t) \/ Both(FMul(pb[t], FSub(up[t], lo[t])), FSub(X("x", t), lo[t]), FMul(E("1e-11"), FMul(FAdd(FAbs(M), F1), Scale)))
      ord == FLt(M, F0) \/ \A t \in 1..NBars : FIsNaN(up[t]) \/ (FLe(lo[t], FAdd(md[t], FMul(E("1e-14"), Scale))) /\ FLe(md[t], FAdd(up[t], FMul(E("1e-14"), Scale))))
      inside == \A t \in 1..NBars : f # "donchian" \/ FIsNaN(pb[t]) \/
                  LET tol == FAdd(E("1e-9"), FDiv(FMul(E("2e-15"), Scale), FSub(up[t], lo[t]))) IN FLe(FNeg(tol), pb[t]) /\ FLe(pb[t], FAdd(F1, tol))
  IN Chk(mid, "C15 " \o f \o " middle is not its moving average")
     \o Chk(wid, "C15 " \o f \o " half width is not the multiple of its width measure")
     \o Chk(sym, "C15 " \o f \o " bands are not symmetric about the middle")
     \o Chk(bwd, "C15 " \o f \o " bandwidth is not (upper-lower)/middle")
     \o Chk(pct, "C15 " \o f \o " %B is not (price-lower)/(upper-lower)")
     \o Chk(ord, "C15 " \o f \o " bands are out of order")
     \o Chk(inside, "C15 " \o f \o " %B leaves [0,1]")
Alts ==
  LET all == ToSet(R.alts)
      good == \A a \in all : a.r = "ok" /\ \A m \in Bd!Methods : Len(a.out[m]) = a.len
      (* %B magnifies rounding where the bands (nearly) coincide *)
      same(a, m) == \A i \in 1..a.n :
         LET x == E(a.out[m][i])  y == Get(m)[i] IN
         IF m = "percent_b" THEN FLe(FAbs(FSub(Get("upper")[i], Get("lower")[i])), FMul(E("1e-9"), Scale)) \/ FClose(x, y, E("1e-6"), E("1e-6"))
         ELSE IF m = "bandwidth" THEN FClose(x, y, E("1e-7"), E("1e-10"))
         ELSE FClose(x, y, E("1e-7"), FMul(E("1e-11"), Scale))
  IN IF ~good THEN <<"C12 " \o f \o " bands raise or do not have one value per row">>
     ELSE Chk(\A a \in all : \A m \in Bd!Methods : same(a, m), "C12 " \o f \o " bands depend on later rows")
IoOk == \A c \in ToSet(R.io) : c.r = "ok" /\ Len(c.out) = NBars /\ c.cont = c.want /\ c.index
        /\ \A i \in 1..NBars : FClose(E(c.out[i]), Get(c.m)[i], E("1e-9"), FMul(E("1e-12"), Scale))
TEnd == /\ (R.r # "ok" \/ (AtEnd /\ Len(calls) = Len(R.calls))) = TRUE
        /\ Verdict(k, fails \o (IF R.r # "ok" THEN <<"C15 " \o f \o " bands raise", "C12 " \o f \o " bands raise", "C13 " \o f \o " bands raise">>
                                ELSE IF ~Complete THEN <<>>
                                ELSE Rows \o Alts \o Chk(IoOk, "C13 " \o f \o " bands differ between containers")))
        /\ UNCHANGED tvars
TraceNext == TBar \/ TCall \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
