-------------------------------- MODULE SimLaw ------------------------------
(* The numeric side of the simulation models, over doubles.                   *)
(* A model is [kind, p1, p2, vol, cor]: p1 is the drift (BM, GBM) or the mean *)
(* (OU), p2 the mean reversion rate (OU); vectors have one entry per variate  *)
(* or one entry for all; cor is a matrix or <<>>.                             *)
EXTENDS Lin, SimLife
NVar(m) == Len(m.p1)
At(v, j) == IF Len(v) = 1 THEN v[1] ELSE v[j]
DtValue(dt) == IF dt[1] = "given" THEN FParse(dt[2]) ELSE FQ(dt[2], dt[3])
Half == FQ(1, 2)

(* One step of a variate maps x to Scale * x^ + Shift + Sd * shock, where x^ is x, or ln x for GBM. *)
Decay(m, j, dt) == IF m.kind = "OU" THEN FExp(FNeg(FMul(At(m.p2, j), dt))) ELSE F1
ShiftOf(m, j, dt) ==
  CASE m.kind = "BM"  -> FMul(At(m.p1, j), dt)
    [] m.kind = "GBM" -> FMul(FSub(At(m.p1, j), FMul(Half, FSq(At(m.vol, j)))), dt)
    [] m.kind = "OU"  -> FMul(At(m.p1, j), FSub(F1, Decay(m, j, dt)))
SdOf(m, j, dt) ==
  IF m.kind = "OU"
  THEN LET r == At(m.p2, j) IN
       FSqrt(FMul(FDiv(FSq(At(m.vol, j)), FMul(F2, r)), FSub(F1, FExp(FNeg(FMul(F2, FMul(r, dt)))))))
  ELSE FMul(At(m.vol, j), FSqrt(dt))
(* Per variate constants, computed once per call. *)
Consts(m, dt) == TLCEval([j \in 1..NVar(m) |-> [a |-> Decay(m, j, dt), b |-> ShiftOf(m, j, dt), c |-> SdOf(m, j, dt)]])
Root(m) == IF m.cor = <<>> THEN Eye(NVar(m)) ELSE Chol(m.cor)
(* The shocks of one step of one path: the factor applied to independent normals. *)
Shock(l, z) == MatVec(l, z)
Hat(m, x) == IF m.kind = "GBM" THEN FLog(x) ELSE x
StepHat(k, xh, e) == FAdd(FAdd(FMul(k.a, xh), k.b), FMul(k.c, e))

(* -log density of a sequence of rows under the transition law. *)
Log2Pi == FLog(FMul(F2, FParse("3.141592653589793")))
Nll(m, x, dt) ==
  LET n == NVar(m)  k == Consts(m, dt)  l == Root(m)
      h == TLCEval([i \in 1..Len(x) |-> [j \in 1..n |-> Hat(m, x[i][j])]])
      e == TLCEval([i \in 1..(Len(x) - 1) |-> [j \in 1..n |-> FDiv(FSub(FSub(h[i+1][j], FMul(k[j].a, h[i][j])), k[j].b), k[j].c)]])
      q == TLCEval([i \in 1..Len(e) |-> LET y == TLCEval(Solve(l, e[i])) IN FDot(y, y)])
      ld == FSum([j \in 1..n |-> FAdd(FLog(k[j].c), FLog(l[j][j]))])
      per == FAdd(ld, FMul(FMul(Half, FInt(n)), Log2Pi))
  IN FAdd(FMul(Half, FSum(q)), FMul(FInt(Len(e)), per))
(* k: the parameters of the model, with its distinct correlations. *)
NParam(m) == Len(m.p1) + Len(m.p2) + Len(m.vol) + (IF m.cor = <<>> THEN 0 ELSE (NVar(m) * (NVar(m) - 1)) \div 2)

(* Estimators, column by column.  col is a sequence of values. *)
Changes(kind, col) == Diff(IF kind = "GBM" THEN FVLog(col) ELSE col)
FitBM(kind, col, dt) ==
  LET d == Changes(kind, col)  v == FDiv(FStd(d, 1), FSqrt(dt))  mu == FDiv(FMean(d), dt)
  IN [p1 |-> IF kind = "GBM" THEN FAdd(mu, FMul(Half, FSq(v))) ELSE mu, p2 |-> F0, vol |-> v, res |-> d]
FitOU(col, dt) ==
  LET n == Len(col)  x == SubSeq(col, 1, n - 1)  y == SubSeq(col, 2, n)
      a == FDiv(FCov(x, y), FSS(x))
      b == FSub(FMean(y), FMul(a, FMean(x)))
      r == TLCEval([i \in 1..(n - 1) |-> FSub(y[i], FAdd(FMul(a, x[i]), b))])
      rate == FDiv(FNeg(FLog(a)), dt)
      v2 == FDiv(FMul(FMul(F2, rate), FVar(r, 1)), FSub(F1, FSq(a)))
  IN [p1 |-> FDiv(b, FSub(F1, a)), p2 |-> rate, vol |-> FSqrt(v2), res |-> r, slope |-> a]
FitCol(kind, col, dt) == IF kind = "OU" THEN FitOU(col, dt) ELSE FitBM(kind, col, dt)
=============================================================================
