-------------------------------- MODULE Feat --------------------------------
(* Features as online machines.  Bars arrive one at a time; each bar adds one *)
(* row of derived quantities (aux), computed from this bar, the bar before,   *)
(* and earlier derived rows only, and then yields one output value.  Nothing  *)
(* can look ahead.  The arithmetic is a parameter: exact rationals for model  *)
(* checking, doubles for traces.                                              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NInt(_), NQ(_, _), NaN, IsNaN(_),
          Add(_, _), Sub(_, _), Mul(_, _), Div(_, _), Lt(_, _), Eq(_, _),
          Sum(_), Dot(_, _), VMax(_), VMin(_), IPow(_, _),
          Sqrt(_), Log(_), Exp(_), TCdf(_), Pi
VARIABLES f,      \* name of the feature
          p,      \* parameters: w (window, span or period), and w2, w3
          bars,   \* columns of the input: x, h, l, o, v, b, s (those the feature needs)
          aux,    \* derived rows so far
          outs    \* outputs so far
Zero == NInt(0)
One == NInt(1)
Two == NInt(2)
Sq(a) == Mul(a, a)
AbsN(a) == IF Lt(a, Zero) THEN Sub(Zero, a) ELSE a
Max2(a, b) == IF Lt(a, b) THEN b ELSE a

NBars == Len(bars[CHOOSE c \in DOMAIN bars : TRUE])
Now == Len(aux) + 1                       \* the bar that arrives next
X(c, t) == bars[c][t]
Chg(c, t) == IF t = 1 THEN NaN ELSE Sub(X(c, t), X(c, t - 1))
LogRet(c, t) == IF t = 1 THEN NaN ELSE Log(Div(X(c, t), X(c, t - 1)))

(* ---- statistics of a sequence of derived rows; n = number of rows, column c ---- *)
Vals(a, c, from, to) == TLCEval([i \in 1..(to - from + 1) |-> a[from + i - 1][c]])
RollMean(a, c, w) == LET n == Len(a) IN IF n < w THEN NaN ELSE Div(Sum(Vals(a, c, n - w + 1, n)), NInt(w))
RollMax(a, c, w) == LET n == Len(a) IN IF n < w THEN NaN ELSE VMax(Vals(a, c, n - w + 1, n))
RollMin(a, c, w) == LET n == Len(a) IN IF n < w THEN NaN ELSE VMin(Vals(a, c, n - w + 1, n))
RollCov(a, c, d, w) ==                    \* sample covariance over the window
  LET n == Len(a) IN IF n < w THEN NaN ELSE
  LET u == Vals(a, c, n - w + 1, n)  v == Vals(a, d, n - w + 1, n)
      mu == Div(Sum(u), NInt(w))  mv == Div(Sum(v), NInt(w))
      du == TLCEval([i \in 1..w |-> Sub(u[i], mu)])  dv == TLCEval([i \in 1..w |-> Sub(v[i], mv)])
  IN Div(Dot(du, dv), NInt(w - 1))
RollVar(a, c, w) == RollCov(a, c, c, w)
(* Exponentially weighted, adjusted: weights decay^(age), from row `from` on.  *)
Weights(decay, n) == TLCEval([i \in 1..n |-> IPow(decay, n - i)])
EwMean(a, c, decay, from) ==
  LET n == Len(a) - from + 1 IN IF n < 1 THEN NaN ELSE
  LET k == Weights(decay, n)  u == Vals(a, c, from, Len(a)) IN Div(Dot(k, u), Sum(k))
EwVar(a, c, decay) ==
  LET n == Len(a)  k == Weights(decay, n)  u == Vals(a, c, 1, n)  sw == Sum(k)  m == Div(Dot(k, u), sw)
      q == TLCEval([i \in 1..n |-> Sq(Sub(u[i], m))])
      biased == Div(Dot(k, q), sw)
  IN Mul(biased, Div(Sq(sw), Sub(Sq(sw), Dot(k, k))))
SpanDecay(s) == Sub(One, NQ(2, s + 1))    \* 1 - alpha, alpha = 2 / (span + 1)
AtrDecay(w) == Sub(One, NQ(1, w))

(* ---- what a bar adds ---- *)
TrueRange(t) == LET r == Sub(X("h", t), X("l", t)) IN
  IF t = 1 THEN r ELSE Max2(r, Max2(AbsN(Sub(X("h", t), X("x", t - 1))), AbsN(Sub(X("l", t), X("x", t - 1)))))
Up(t) == IF t > 1 /\ Lt(Zero, Chg("x", t)) THEN Chg("x", t) ELSE Zero
Down(t) == IF t > 1 /\ Lt(Chg("x", t), Zero) THEN Sub(Zero, Chg("x", t)) ELSE Zero
LnHL2(t) == Sq(Log(Div(X("h", t), X("l", t))))
Nonzero(a, b) == IF Eq(a, Zero) THEN NaN ELSE b
Derive(t) ==
  CASE f \in {"rolling_mean", "rolling_std", "rolling_max", "rolling_min", "rolling_mom", "ewm_mean", "ewm_std"} -> [x |-> X("x", t)]
    [] f = "ewm_mom" -> [x |-> Chg("x", t)]
    [] f = "average_true_range" -> [x |-> TrueRange(t)]
    [] f \in {"rsi", "ewm_rsi"} -> [u |-> Up(t), d |-> Down(t)]
    [] f \in {"macd", "macd_signal"} ->
         LET a == Append(aux, [x |-> X("x", t), m |-> Zero]) IN
         [x |-> X("x", t), m |-> Sub(EwMean(a, "x", SpanDecay(p.w), 1), EwMean(a, "x", SpanDecay(p.w2), 1))]
    [] f = "get_close_close_volatility" -> [x |-> IF t = 1 THEN NaN ELSE Div(X("x", t), X("x", t - 1))]
    [] f = "get_high_low_volatility" -> [x |-> LnHL2(t)]
    [] f = "get_garman_klass_volatility" -> [x |-> Mul(NQ(1, 2), LnHL2(t)), c |-> Mul(Sub(Mul(Two, Log(Two)), One), Sq(Log(Div(X("x", t), X("o", t)))))]
    [] f \in {"get_rogers_satchell_volatility", "get_yang_zhang_volatility"} ->
         [x |-> Add(Mul(Log(Div(X("h", t), X("x", t))), Log(Div(X("h", t), X("o", t)))), Mul(Log(Div(X("l", t), X("x", t))), Log(Div(X("l", t), X("o", t))))),
          n |-> IF t = 1 THEN NaN ELSE Sq(Log(Div(X("o", t), X("x", t - 1)))),
          c |-> Sq(Log(Div(X("x", t), X("o", t))))]
    [] f \in {"get_becker_parkinson_volatility", "get_cowrin_schultz_spread"} ->
         [b |-> IF t = 1 THEN NaN ELSE Add(LnHL2(t), LnHL2(t - 1)),
          g |-> IF t = 1 THEN NaN ELSE Sq(Log(Div(Max2(X("h", t), X("h", t - 1)), IF Lt(X("l", t), X("l", t - 1)) THEN X("l", t) ELSE X("l", t - 1))))]
    [] f \in {"get_roll_measure", "get_roll_impact"} ->
         [x |-> IF t < 3 THEN NaN ELSE LogRet("x", t), y |-> IF t < 3 THEN NaN ELSE LogRet("x", t - 1)]
    [] f = "get_kyle_lambda" -> [x |-> Nonzero(Chg("x", t), Div(AbsN(Chg("x", t)), X("v", t)))]
    [] f = "get_amihud_lambda" -> [x |-> IF t = 1 THEN NaN ELSE Div(AbsN(Div(Chg("x", t), X("x", t - 1))), Mul(X("v", t), X("x", t)))]
    [] f = "get_hasbrouck_lambda" -> [x |-> Nonzero(LogRet("x", t), Div(AbsN(LogRet("x", t)), Sqrt(Mul(X("v", t), X("x", t)))))]
    [] f = "get_vpin" -> [x |-> Div(AbsN(Sub(Mul(Two, X("b", t)), X("v", t))), X("v", t))]
    [] f = "estimate_buy_volume" -> [x |-> IF t = 1 THEN NaN ELSE Mul(X("v", t), TCdf(Div(Chg("x", t), X("s", t))))]
    [] f = "get_edge_spread" -> [o |-> Log(X("o", t)), h |-> Log(X("h", t)), l |-> Log(X("l", t)), c |-> Log(X("x", t)),
                                 m |-> Div(Add(Log(X("h", t)), Log(X("l", t))), Two)]
    [] f = "cusum" -> [y |-> Log(X("x", t)), q |-> IF t = 1 THEN Zero ELSE Sq(LogRet("x", t))]

(* ---- the edge estimator of Ardia, Guidotti and Kroencke on the rows of one window ---- *)
Edge(a, w) ==
  LET n == Len(a) IN IF n < w \/ w < 2 THEN [ok |-> FALSE] ELSE
  LET r == SubSeq(a, n - w + 1, n)  m == w - 1
      B(e) == IF e THEN 1 ELSE 0
      tau == [i \in 1..m |-> ~Eq(r[i+1].h, r[i+1].l) \/ ~Eq(r[i+1].l, r[i].c)]
      Cnt(q) == Sum([i \in 1..m |-> NInt(B(q[i] /\ tau[i]))])
      pt == Div(Sum([i \in 1..m |-> NInt(B(tau[i]))]), NInt(m))
      po == Div(Add(Cnt([i \in 1..m |-> ~Eq(r[i+1].o, r[i+1].h)]), Cnt([i \in 1..m |-> ~Eq(r[i+1].o, r[i+1].l)])), NInt(m))
      pc == Div(Add(Cnt([i \in 1..m |-> ~Eq(r[i].c, r[i].h)]), Cnt([i \in 1..m |-> ~Eq(r[i].c, r[i].l)])), NInt(m))
      MeanOf(s) == Div(Sum(s), NInt(m))
      r1 == TLCEval([i \in 1..m |-> Sub(r[i+1].m, r[i+1].o)])
      r2 == TLCEval([i \in 1..m |-> Sub(r[i+1].o, r[i].m)])
      r3 == TLCEval([i \in 1..m |-> Sub(r[i+1].m, r[i].c)])
      r4 == TLCEval([i \in 1..m |-> Sub(r[i].c, r[i].m)])
      r5 == TLCEval([i \in 1..m |-> Sub(r[i+1].o, r[i].c)])
      Dm(s) == LET mu == Div(MeanOf(s), pt) IN TLCEval([i \in 1..m |-> IF tau[i] THEN Sub(s[i], mu) ELSE s[i]])
      d1 == Dm(r1)  d3 == Dm(r3)  d5 == Dm(r5)
      ao == Div(NInt(-4), po)  ac == Div(NInt(-4), pc)
      x1 == TLCEval([i \in 1..m |-> Add(Mul(ao, Mul(d1[i], r2[i])), Mul(ac, Mul(d3[i], r4[i])))])
      x2 == TLCEval([i \in 1..m |-> Add(Mul(ao, Mul(d1[i], r5[i])), Mul(ac, Mul(d5[i], r4[i])))])
      e1 == MeanOf(x1)  e2 == MeanOf(x2)
      v1 == MeanOf([i \in 1..m |-> Sq(Sub(x1[i], e1))])
      v2 == MeanOf([i \in 1..m |-> Sq(Sub(x2[i], e2))])
      big == VMax([i \in 1..m |-> Max2(AbsN(x1[i]), AbsN(x2[i]))])
  IN IF Eq(pt, Zero) \/ Eq(po, Zero) \/ Eq(pc, Zero) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, s2 |-> Div(Add(Mul(v2, e1), Mul(v1, e2)), Add(v1, v2)), vv |-> Add(v1, v2), big |-> big]

(* ---- the CUSUM statistic: departures from every earlier row ---- *)
Sigma2(a) == Div(Sum(Vals(a, "q", 2, Len(a))), NInt(Len(a) - 1))
Departures(a) == LET t == Len(a)  s2 == Sigma2(a) IN
  TLCEval([n \in 1..(t - 1) |-> Div(Sub(a[t].y, a[n].y), Sqrt(Mul(s2, NInt(t - n))))])

(* ---- output of the newest row, given all derived rows including it ---- *)
Den == Sub(NInt(3), Mul(Two, Sqrt(Two)))
Ratio100(u, d) == Mul(NInt(100), Div(u, Add(u, d)))
Value(a) ==
  LET t == Len(a)  w == p.w IN
  CASE f = "rolling_mean" -> RollMean(a, "x", w)
    [] f = "rolling_std" -> Sqrt(RollVar(a, "x", w))
    [] f = "rolling_max" -> RollMax(a, "x", w)
    [] f = "rolling_min" -> RollMin(a, "x", w)
    [] f = "rolling_mom" -> IF t <= w THEN NaN ELSE Div(Sub(a[t].x, a[t - w].x), NInt(w))
    [] f = "ewm_mean" -> EwMean(a, "x", SpanDecay(w), 1)
    [] f = "ewm_std" -> Sqrt(EwVar(a, "x", SpanDecay(w)))
    [] f = "ewm_mom" -> IF t - 1 < p.w2 THEN NaN ELSE EwMean(a, "x", SpanDecay(w), 2)
    [] f = "average_true_range" -> EwMean(a, "x", AtrDecay(w), 1)
    [] f = "rsi" -> Ratio100(RollMean(a, "u", w), RollMean(a, "d", w))
    [] f = "ewm_rsi" -> Ratio100(EwMean(a, "u", SpanDecay(w), 1), EwMean(a, "d", SpanDecay(w), 1))
    [] f = "macd" -> a[t].m
    [] f = "macd_signal" -> Sub(a[t].m, EwMean(a, "m", SpanDecay(p.w3), 1))
    [] f = "get_close_close_volatility" -> RollVar(a, "x", w)
    [] f = "get_high_low_volatility" -> Div(RollMean(a, "x", w), Mul(NInt(4), Log(Two)))
    [] f = "get_garman_klass_volatility" -> Sub(RollMean(a, "x", w), RollMean(a, "c", w))
    [] f = "get_rogers_satchell_volatility" -> RollMean(a, "x", w)
    [] f = "get_yang_zhang_volatility" ->
         LET k == Div(NQ(34, 100), Add(NQ(134, 100), NQ(w + 1, w - 1)))
         IN Add(Add(RollMean(a, "n", w), Mul(k, RollMean(a, "c", w))), Mul(Sub(One, k), RollMean(a, "x", w)))
    [] f = "get_becker_parkinson_volatility" ->
         LET b == RollMean(a, "b", w)  k2 == Div(NInt(8), Pi)
             s == Add(Div(Mul(Sub(Div(One, Sqrt(Two)), One), Sqrt(b)), Mul(Sqrt(k2), Den)), Sqrt(Div(a[t].g, Mul(k2, Den))))
         IN IF Lt(s, Zero) THEN Zero ELSE s
    [] f = "get_cowrin_schultz_spread" ->
         LET b == RollMean(a, "b", w)
             al == Sub(Div(Mul(Sub(Sqrt(Two), One), Sqrt(b)), Den), Sqrt(Div(a[t].g, Den)))
             e == Exp(IF Lt(al, Zero) THEN Zero ELSE al)
         IN Div(Mul(Two, Sub(e, One)), Add(e, One))
    [] f = "get_roll_measure" -> Mul(Two, Sqrt(AbsN(RollCov(a, "x", "y", w))))
    [] f = "get_roll_impact" -> Div(Mul(Two, Sqrt(AbsN(RollCov(a, "x", "y", w)))), Mul(X("v", t), X("x", t)))
    [] f \in {"get_kyle_lambda", "get_amihud_lambda", "get_hasbrouck_lambda", "get_vpin"} -> RollMean(a, "x", w)
    [] f = "estimate_buy_volume" -> a[t].x
    [] f = "get_edge_spread" ->
         LET e == Edge(a, w) IN IF ~e.ok THEN NaN
         ELSE IF p.w2 = 1 /\ Lt(e.s2, Zero) THEN Sub(Zero, Sqrt(AbsN(e.s2))) ELSE Sqrt(AbsN(e.s2))
    [] f = "cusum" -> IF t = 1 THEN Zero ELSE VMax(Departures(a))

-----------------------------------------------------------------------------
Start(name, par, cols) == f = name /\ p = par /\ bars = cols /\ aux = <<>> /\ outs = <<>>
Bar == /\ Now <= NBars
       /\ aux' = Append(aux, TLCEval(Derive(Now)))
       /\ outs' = Append(outs, Value(aux'))
       /\ UNCHANGED <<f, p, bars>>
AtEnd == Len(aux) = NBars
=============================================================================
