------------------------------ MODULE FeatTrace -----------------------------
(* Logged calls of features against Feat: f, p, in (columns), out (values),   *)
(* and depending on the purpose of the record                                 *)
(*   alts: outputs for inputs that agree with `in` on the first n rows        *)
(*   io:   the same call with other containers, labels and call forms         *)
EXTENDS Lin, TraceKit, SequencesExt
VARIABLES k, fails, f, p, bars, aux, outs
ThePi == FParse("3.141592653589793")
TC(x) == FTCdf(x, FQ(1, 4))
INSTANCE Feat WITH NInt <- FInt, NQ <- FQ, NaN <- FNaN, IsNaN <- FIsNaN, Add <- FAdd, Sub <- FSub, Mul <- FMul, Div <- FDiv,
  Lt <- FLt, Eq <- FEq, Sum <- FSum, Dot <- FDot, VMax <- FVMax, VMin <- FVMin, IPow <- FIPow,
  Sqrt <- FSqrt, Log <- FLog, Exp <- FExp, TCdf <- TC, Pi <- ThePi
tvars == <<k, fails, f, p, bars, aux, outs>>
R == Trace[k]
E(s) == FParse(s)
Indicators == {"rolling_mean", "rolling_std", "rolling_max", "rolling_min", "rolling_mom", "ewm_mean", "ewm_std", "ewm_mom",
               "average_true_range", "rsi", "ewm_rsi", "macd", "macd_signal"}
Ranges == {"get_close_close_volatility", "get_high_low_volatility", "get_garman_klass_volatility", "get_rogers_satchell_volatility",
           "get_yang_zhang_volatility", "get_becker_parkinson_volatility", "get_cowrin_schultz_spread"}
Owner == IF f \in Indicators THEN "C14" ELSE IF f \in Ranges THEN "C17" ELSE IF f = "cusum" THEN "C19" ELSE "C18"
TraceInit == /\ \E i \in 1..NRec : /\ k = i
                                   /\ LET c == Trace[i].in IN Start(Trace[i].f, Trace[i].p, [x \in DOMAIN c |-> FParseSeq(c[x])])
             /\ fails = <<>>
(* Largest magnitude seen so far: rounding errors of running sums are relative to it. *)
Scale(t) == LET m(c) == FVMax(FVAbs(SubSeq(bars[c], 1, t))) IN
            IF "x" \in DOMAIN bars THEN (IF "h" \in DOMAIN bars THEN FMax(m("x"), m("h")) ELSE m("x")) ELSE F1
Sqrtish == {"rolling_std", "ewm_std", "get_roll_measure", "get_roll_impact", "get_edge_spread"}
(* The output o of row t against the value v of the machine with derived rows a. *)
MaxB(a) == FVMax([i \in 1..(Len(a)-1) |-> a[i+1].b])
Same(a, o, v, t) ==
  CASE f \in {"rolling_mean", "rolling_max", "rolling_min", "rolling_mom", "ewm_mean", "ewm_mom", "average_true_range", "macd", "macd_signal"} ->
         FClose(o, v, E("1e-8"), FMul(E("1e-12"), Scale(t)))
    [] f \in {"rolling_std", "ewm_std"} -> FIsNaN(o) = FIsNaN(v) /\ (FIsNaN(o) \/ FLe(F0, o)) /\ FClose(FSq(o), FSq(v), E("1e-7"), FMul(E("1e-11"), FSq(Scale(t))))
    [] f \in {"rsi", "ewm_rsi"} -> FClose(o, v, E("1e-7"), E("1e-6"))
    [] f = "get_close_close_volatility" -> FClose(o, v, E("1e-6"), E("1e-13"))
    [] f \in {"get_becker_parkinson_volatility", "get_cowrin_schultz_spread"} ->
         FClose(o, v, E("1e-6"), IF t = 1 THEN F0 ELSE FMul(E("3e-7"), FSqrt(MaxB(a))))
    [] f \in Ranges -> FClose(o, v, E("1e-6"), E("1e-11"))
    [] f = "get_roll_measure" -> FIsNaN(o) = FIsNaN(v) /\ (FIsNaN(o) \/ FLe(F0, o)) /\ FClose(FSq(o), FSq(v), E("1e-6"), E("1e-12"))
    [] f = "get_roll_impact" -> LET d == FMul(X("v", t), X("x", t)) IN
         FIsNaN(o) = FIsNaN(v) /\ (FIsNaN(o) \/ FLe(F0, o)) /\ FClose(FSq(FMul(o, d)), FSq(FMul(v, d)), E("1e-6"), E("1e-12"))
    [] f \in {"get_kyle_lambda", "get_amihud_lambda", "get_hasbrouck_lambda", "get_vpin", "estimate_buy_volume"} ->
         FClose(o, v, E("1e-7"), IF f = "estimate_buy_volume" THEN FMul(E("1e-9"), X("v", t)) ELSE IF f = "get_vpin" THEN E("1e-11") ELSE FMul(E("1e-12"), E(R.scale)))
    [] f = "get_edge_spread" ->
         LET e == Edge(a, p.w) IN
         IF ~e.ok THEN FIsNaN(o)
         ELSE IF p.w > 2 /\ FLe(e.vv, FMul(E("1e-16"), FSq(e.big))) THEN TRUE
         ELSE /\ FClose(FSq(o), FSq(v), E("1e-6"), FMul(E("1e-9"), e.big))
              /\ (IF p.w2 = 1 THEN FLt(FMul(E("1e-7"), e.big), FAbs(e.s2)) => FLt(o, F0) = FLt(v, F0) ELSE ~FLt(o, F0))
    [] f = "cusum" ->
         IF t = 1 THEN FEq(o, F0) /\ FEq(E(R.crit[1]), F0)
         ELSE IF FLe(Sigma2(a), E("1e-24")) THEN TRUE
         ELSE LET d == Departures(a)  b == E("4.6") IN
              /\ FClose(o, v, E("1e-8"), FAdd(E("1e-9"), FDiv(FMul(E("4e-15"), FMax(F1, FVMax(FVAbs([i \in 1..t |-> a[i].y])))), FSqrt(Sigma2(a)))))
              /\ LET top == {n \in 1..(t - 1) : FClose(d[n], v, E("1e-10"), E("1e-10"))}
                     Crit(n) == FClose(E(R.crit[t]), FSqrt(FAdd(b, FLog(FInt(t - n)))), E("1e-9"), F0)
                 IN IF R.exact /\ \A n \in top : t - n \in {1, 4, 16, 64} THEN Crit(CHOOSE n \in top : \A m \in top : n <= m)
                    ELSE \E n \in top : Crit(n)
(* Bounds that hold for every positive series, however extreme. *)
Bounded(o, t) ==
  FIsNaN(o) \/
  CASE f \in {"rsi", "ewm_rsi"} -> FLe(E("-1e-7"), o) /\ FLe(o, E("100.0000001"))
    [] f = "get_vpin" -> FLe(E("-1e-9"), o) /\ FLe(o, E("1.000000001"))
    [] f = "estimate_buy_volume" -> FLe(F0, o) /\ FLe(o, FMul(X("v", t), E("1.000000001")))
    [] f \in {"rolling_mean", "rolling_min", "rolling_max"} ->
         LET w == [i \in 1..p.w |-> X("x", t - p.w + i)]  s == FMul(E("1e-9"), Scale(t)) IN
         FLe(FSub(FVMin(w), s), o) /\ FLe(o, FAdd(FVMax(w), s))
    [] f \in {"rolling_std", "ewm_std", "average_true_range", "get_high_low_volatility",
              "get_becker_parkinson_volatility", "get_cowrin_schultz_spread", "get_roll_measure", "get_roll_impact", "get_kyle_lambda",
              "get_amihud_lambda", "get_hasbrouck_lambda"} -> FLe(FMul(E("-1e-10"), E(R.scale)), o)
    [] f = "get_rogers_satchell_volatility" -> FLe(E("-1e-9"), o)
    [] f = "get_close_close_volatility" -> FLe(FMul(E("-1e-12"), FSq(FAdd(E("1e-3"), FVMax([i \in 1..t |-> IF i = 1 THEN F1 ELSE FDiv(X("x", i), X("x", i - 1))])))), o)
    [] OTHER -> TRUE
Changes(t) == {Chg("x", i) : i \in 2..t} \* all changes up to t
WinChanges(t) == {Chg("x", i) : i \in (IF t - p.w + 1 < 2 THEN 2 ELSE t - p.w + 1)..t}
RsiExtreme(o, t) == LET d == IF f = "rsi" THEN WinChanges(t) ELSE Changes(t) IN
  (f \in {"rsi", "ewm_rsi"} /\ d # {} /\ (f = "ewm_rsi" \/ t >= p.w)) =>
     /\ ((\A c \in d : FLt(F0, c)) => FClose(o, FInt(100), E("1e-9"), F0))
     /\ ((\A c \in d : FLt(c, F0)) => FClose(o, F0, F0, E("1e-7")))
O(t) == E(R.out[t])
Purpose(x) == \E i \in 1..Len(R.why) : R.why[i] = x
TBar == /\ R.r = "ok" /\ Len(R.out) = NBars /\ (Purpose("def") \/ Purpose("bounds"))
        /\ Bar /\ UNCHANGED k
        /\ LET t == Now IN
           fails' = fails
             \o (IF Purpose("def") /\ ~Same(aux', O(t), outs'[t], t)
                 THEN <<Owner \o " " \o f \o " differs from its definition">> ELSE <<>>)
             \o (IF Purpose("bounds") THEN Chk(Bounded(O(t), t), "C16 " \o f \o " leaves its bounds") \o Chk(RsiExtreme(O(t), t), "C16 RSI of rises or falls only is not 100 or 0") ELSE <<>>)
AltClauses == IF ~Purpose("alts") THEN <<>> ELSE
  LET bad(a) == \E i \in 1..a.n : ~FClose(E(a.out[i]), O(i), E("1e-7"), FMul(E("1e-11"), E(R.scale))) IN
  Chk(\A a \in 1..Len(R.alts) : R.alts[a].r = "ok" /\ Len(R.alts[a].out) = R.alts[a].len, "C12 " \o f \o " does not return one value per row")
  \o Chk(\A a \in 1..Len(R.alts) : R.alts[a].r # "ok" \/ Len(R.alts[a].out) # R.alts[a].len \/ ~bad(R.alts[a]), "C12 " \o f \o " depends on later rows")
EqualOut(a) == Len(a) = Len(R.out) /\ \A i \in 1..Len(a) : FClose(E(a[i]), O(i), E("1e-9"), FMul(E("1e-13"), E(R.scale)))
(* a twin call on the same values in the other container gave `ref` *)
EqualTwin(c) == IF Len(c.ref) = 0 THEN EqualOut(c.out) ELSE Len(c.out) = Len(c.ref) /\ \A i \in 1..Len(c.out) : FClose(E(c.out[i]), E(c.ref[i]), E("1e-9"), F0)
IoClauses == IF ~Purpose("io") THEN <<>> ELSE
  FoldSeq(LAMBDA c, acc : acc \o
      (IF c.want = "TypeError" THEN Chk(c.r = "TypeError", "C13 " \o f \o ": " \o c.name \o " does not raise TypeError")
       ELSE IF c.r # "ok" THEN <<"C13 " \o f \o ": " \o c.name \o " raises">>
       ELSE Chk(c.cont = c.want, "C13 " \o f \o ": " \o c.name \o " returns another container")
            \o Chk(c.index, "C13 " \o f \o ": " \o c.name \o " returns another index")
            \o Chk(EqualTwin(c), "C13 " \o f \o ": " \o c.name \o " returns other values")), <<>>, R.io)
TEnd == /\ (R.r # "ok" \/ Len(R.out) # NBars \/ AtEnd \/ ~(Purpose("def") \/ Purpose("bounds"))) = TRUE
        /\ Verdict(k, fails \o (IF R.r # "ok" THEN <<Owner \o " " \o f \o " raises", "C12 " \o f \o " raises", "C13 " \o f \o " raises", "C16 " \o f \o " raises">>
                                ELSE IF Len(R.out) # NBars THEN <<Owner \o " wrong number of values", "C12 " \o f \o " does not return one value per row", "C13 " \o f \o " does not return the rows of its input">>
                                ELSE AltClauses \o IoClauses))
        /\ UNCHANGED tvars
TraceNext == TBar \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
