---------------------------- MODULE DenoiseTrace ----------------------------
(* Logged denoising (C27): of a spectrum (kind "eig"), of a correlation       *)
(* matrix (kind "cor") or of a covariance matrix (kind "cov"), and densities  *)
(* of the Marchenko-Pastur distribution (kind "pdf").                         *)
EXTENDS Lin, TraceKit
VARIABLES k, phase, eig, pos, best, bestll, kk
tvars == <<k, phase, eig, pos, best, bestll, kk>>
INSTANCE Denoise WITH Zero <- F0, NInt <- FInt, Div <- FDiv, Lt <- FLt, Sum <- FSum
INSTANCE Cov WITH Zero <- F0, One <- F1, NInt <- FInt, Add <- FAdd, Sub <- FSub, Mul <- FMul, Div <- FDiv, Sqrt <- FSqrt, Max2 <- FMax, Min2 <- FMin, Sum <- FSum
R == Trace[k]
E(s) == FParse(s)
M(m) == FParseMat(m)
Pi == E("3.141592653589793")
GridN == 1000
GridVar(i) == FAdd(E("0.01"), FMul(FInt(i - 1), FDiv(E("3.99"), FInt(GridN - 1))))
(* The distribution with variance var for t steps of n assets. *)
Ratio(t, n) == FSqrt(FDiv(FInt(n), FInt(t)))
LowEdge(var, t, n) == FMul(var, FSq(FSub(F1, Ratio(t, n))))
UpEdge(var, t, n) == FMul(var, FSq(FAdd(F1, Ratio(t, n))))
Density(var, t, n, v) ==
  LET lo == LowEdge(var, t, n)  hi == UpEdge(var, t, n) IN
  IF FLt(lo, v) /\ FLt(v, hi)
  THEN FMul(FDiv(FDiv(FInt(t), FInt(n)), FMul(FMul(F2, Pi), FMul(var, v))), FSqrt(FMul(FSub(hi, v), FSub(v, lo))))
  ELSE F0
(* Values outside the support have the density one over the largest value. *)
LogLik(var, t, n, e) ==
  LET out == FNeg(FLog(FVMax(e))) IN
  FSum(TLCEval([i \in 1..Len(e) |-> LET d == Density(var, t, n, e[i]) IN IF FLt(F0, d) THEN FLog(d) ELSE out]))
(* The spectrum that is denoised, decreasing. *)
Spec0(r) == IF r.kind \in {"pdf", "reject"} THEN <<F1>> ELSE FParseSeq(r.s)
N == Len(R.s)
TraceInit == /\ k \in 1..NRec
             /\ IF Trace[k].kind \in {"pdf", "reject"} \/ Trace[k].r # "ok" THEN DStart(<<F1>>, 1, 1)
                \* matrices with a given number of factors are not trimmed: the rest of the trace is shared
                ELSE DStart(Spec0(Trace[k]), IF Trace[k].kind # "eig" /\ Trace[k].k # 0 THEN Len(Trace[k].s) ELSE Trace[k].t,
                            IF Trace[k].k > Len(Trace[k].s) THEN Len(Trace[k].s) ELSE Trace[k].k)
TScan == pos < GridN /\ DScan(LogLik(GridVar(pos + 1), R.t, N, Fitted(eig, R.t))) /\ UNCHANGED k
TCut == pos = GridN /\ DCut(UpEdge(GridVar(best), R.t, N)) /\ UNCHANGED k
TAvg == DAverage /\ UNCHANGED k
C27(c, t) == Chk(c, "C27 " \o t)
Tol == E("1e-9")
(* The fit in the log: any grid point whose likelihood is the largest up to rounding. *)
OnGrid(v) == \E i \in 1..GridN : FClose(v, GridVar(i), E("1e-12"), F0)
Near(edge, e) == \E i \in 1..Len(e) : FClose(e[i], edge, Tol, Tol)
Fit ==
  LET e0 == Trimmed(Spec0(R), R.t)  var == E(R.var)  edge == UpEdge(var, R.t, N) IN
  IF ~OnGrid(var) THEN <<"C27 fitted variance is not on the grid">> ELSE
  C27(FLe(FSub(bestll, FMul(Tol, FAdd(F1, FAbs(bestll)))), LogLik(var, R.t, N, Fitted(e0, R.t))), "fitted variance does not maximise the likelihood over the grid")
  \o C27(FClose(E(R.edge), edge, Tol, F0), "noise threshold is not the upper edge of the fitted distribution")
  \o C27(Near(edge, e0) \/ R.outk = Len(SelectSeq(e0, LAMBDA v : FLe(edge, v))), "number of factors is not the number of eigenvalues at or above the edge")
Vals == LET e0 == Trimmed(Spec0(R), R.t) IN IF R.k = 0 THEN Averaged(e0, R.outk) ELSE eig
EigClauses ==
  (IF R.k = 0 THEN Fit ELSE C27(R.outk = R.k, "reported number of factors is not the given one"))
  \o (IF R.outk < 0 \/ R.outk > N THEN <<"C27 number of factors is out of range">> ELSE
      C27(FVClose(FParseSeq(R.o), Vals, Tol, FMul(Tol, FInt(N))), "denoised eigenvalues are not the kept ones and the mean of the rest"))
(* Matrix: with the witness eigenvectors (rows of R.v). *)
MatClauses ==
  LET isCov == R.kind = "cov"  m == M(R.m)  std == IF isCov THEN Stds(m, E("1e-6")) ELSE <<>>
      cor == IF isCov THEN CorOf(m, std) ELSE m
      s == FParseSeq(R.s)  v == M(R.v)
      kept == IF R.k = 0 THEN R.outk ELSE IF R.k > N THEN N ELSE R.k
      vals == Vals
      clear == kept >= N \/ kept = 0 \/ FLe(E("1e-6"), FSub(s[kept], s[kept + 1]))      \* the kept vectors are determined
      want == FromEig(vals, v)
      o == M(R.om)
  IN IF ~IsEigen(cor, s, v) THEN <<"witness">> ELSE
     (IF R.k = 0 THEN Fit ELSE C27(R.outk = R.k, "reported number of factors is not the given one"))
     \o (IF kept < 0 \/ kept > N THEN <<"C27 number of factors is out of range">> ELSE
     C27(Len(o) = N, "denoised matrix has another size")
     \o (IF Len(o) # N THEN <<>> ELSE
         C27(\A i, j \in 1..N : FClose(o[i][j], o[j][i], Tol, FMul(E("1e-12"), FAbs(FSqrt(FMul(o[i][i], o[j][j]))))), "denoised matrix is not symmetric")
         \o C27(\A i \in 1..N : FClose(o[i][i], IF isCov THEN FSq(std[i]) ELSE F1, E("1e-12"), F0), "denoising changes the variances")
         \o C27(~clear \/ MatClose(IF isCov THEN CorOf(o, std) ELSE o, want, F0, E("1e-7")), "denoised matrix is not made of the kept eigenpairs and one common noise value")))
     \o C27(R.same, "denoising changes its input")
PdfClauses ==
  C27(FClose(E(R.lo), LowEdge(E(R.var), R.t, R.n), Tol, E("1e-14")) /\ FClose(E(R.hi), UpEdge(E(R.var), R.t, R.n), Tol, F0), "support of the distribution")
  \o C27(\A i \in 1..Len(R.x) : LET x == E(R.x[i]) IN
         FClose(E(R.p[i]), Density(E(R.var), R.t, R.n, x), E("1e-7"), E("1e-9"))
         \/ FClose(x, LowEdge(E(R.var), R.t, R.n), Tol, Tol) \/ FClose(x, UpEdge(E(R.var), R.t, R.n), Tol, Tol), "density of the distribution")
Clauses == IF R.kind = "reject" THEN C27(R.r = R.want, R.what \o " is not rejected with " \o R.want)
           ELSE IF R.r # "ok" THEN <<"C27 " \o R.kind \o " denoising raises">>
           ELSE CASE R.kind = "pdf" -> PdfClauses [] R.kind = "eig" -> EigClauses \o C27(R.same, "denoising changes its input") [] OTHER -> MatClauses
TEnd == phase = "done" /\ Verdict(k, Clauses) /\ UNCHANGED tvars
TraceNext == TScan \/ TCut \/ TAvg \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
