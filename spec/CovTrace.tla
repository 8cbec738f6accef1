------------------------------ MODULE CovTrace ------------------------------
(* Logged conversions (C26).  Eigendecompositions are judged by what they     *)
(* are, not by how they were computed: signs, and bases of eigenspaces, are   *)
(* free.                                                                      *)
EXTENDS Lin, TraceKit
VARIABLES k
tvars == <<k>>
INSTANCE Cov WITH Zero <- F0, One <- F1, NInt <- FInt, Add <- FAdd, Sub <- FSub, Mul <- FMul, Div <- FDiv, Sqrt <- FSqrt, Max2 <- FMax, Min2 <- FMin, Sum <- FSum
R == Trace[k]
E(s) == FParse(s)
M(m) == FParseMat(m)
C26(c, t) == Chk(c, "C26 " \o t)
TraceInit == k \in 1..NRec
Orthonormal(v, tol) == \A i, j \in 1..Len(v) : FClose(FDot(v[i], v[j]), IF i = j THEN F1 ELSE F0, F0, tol)
Decr(s) == \A i \in 1..(Len(s) - 1) : FLe(s[i + 1], s[i])
IsPart(p, s, v, tol) == Orthonormal(v, tol) /\ \A i \in 1..Len(s) : FVClose(MatVec(p, v[i]), FVScale(v[i], s[i]), F0, FMul(tol, FAdd(F1, FVMax(FVAbs(s)))))
T10 == E("1e-10")
T12 == E("1e-12")
Conv ==
  LET cov == M(R.cov)  floor == E(R.floor)  std == Stds(cov, floor)  cor == CorOf(cov, std)  n == Len(cov)
      big == FVMax(TLCEval([i \in 1..n |-> FVMax(FVAbs(cov[i]))]))
      above == \A i \in 1..n : FLe(FMul(floor, floor), cov[i][i])
  IN IF R.r # "ok" THEN <<"C26 conversion of a covariance matrix raises">> ELSE
     C26(FVClose(FParseSeq(R.std), std, T12, F0), "standard deviations are not the roots of the variances (or the floor)")
     \o C26(MatClose(M(R.cor), cor, T12, E("1e-15")), "correlation is not covariance over the standard deviations")
     \o C26(\A i, j \in 1..n : FLe(FAbs(E(R.cor[i][j])), F1), "correlation outside [-1, 1]")
     \o C26(~above \/ \A i \in 1..n : FClose(E(R.cor[i][i]), F1, F0, T12), "correlation diagonal is not one")
     \o C26(~above \/ ~R.psd \/ MatClose(M(R.back), cov, E("1e-9"), FMul(E("1e-13"), big)), "covariance to correlation and back is not the same matrix")
     \o C26(MatClose(M(R.back), CovOf(M(R.cor), FParseSeq(R.std)), T12, E("1e-300")), "correlation times the standard deviations is not the covariance")
EigC ==
  LET p == M(R.cor)  n == Len(p)  all == FParseSeq(R.wit)                     \* witness: all eigenvalues, decreasing
      wv == M(R.witv)
      s == FParseSeq(R.s)  v == M(R.v)  want == IF R.k = 0 THEN n ELSE IF R.k > n THEN n ELSE R.k
  IN IF ~(IsEigen(p, all, wv) /\ Decr(all)) THEN <<"witness">>
     ELSE IF R.r # "ok" THEN <<"C26 eigendecomposition raises">> ELSE
     C26(Len(s) = want /\ Len(v) = want, "eigendecomposition has another number of pairs than asked for")
     \o (IF Len(s) # want \/ Len(v) # want THEN <<>> ELSE
         C26(IsPart(p, s, v, T10), "returned pairs are not eigenpairs with orthonormal vectors")
         \o C26((R.k = 0 /\ ~R.sort) \/ FVClose(s, SubSeq(all, 1, want), F0, FMul(T10, FInt(n))), "eigenvalues are not the largest in decreasing order")
         \o C26((R.k = 0 /\ ~R.sort) \/ Decr(s), "eigenvalues are not in decreasing order")
         \o C26(FVClose(FSort(s), FSort(SubSeq(all, 1, want)), F0, FMul(T10, FInt(n))), "eigenvalues are missing")
         \o C26(want < n \/ MatClose(M(R.back), p, F0, FMul(T10, FInt(n))), "eigenvalues and vectors do not reconstruct the matrix")
         \o C26(MatClose(M(R.back), FromEig(s, v), F0, FMul(T10, FInt(n))), "reconstruction is not the sum over the eigenpairs with unit diagonal")
         \o (LET cs == FParseSeq(R.cs)  cv == M(R.cv) IN
             C26(Len(cs) = n /\ Len(cv) = n, "completed set is not complete")
             \o (IF Len(cs) # n \/ Len(cv) # n THEN <<>> ELSE
                 C26(FVClose(cs, CompleteVals(s, n), F0, FMul(T10, FInt(n))), "completed values are not the given ones and equal shares of the rest")
                 \o C26(FClose(FSum(cs), FInt(n), F0, FMul(E("1e-9"), FInt(n))), "completed values do not sum to the dimension")
                 \o C26(\A i \in 1..want : FVClose(cv[i], v[i], F0, T12), "completion changes the given vectors")
                 \o C26(Orthonormal(cv, T10), "completed vectors are not orthonormal"))))
Block ==
  IF R.bad THEN C26(R.r = "ValueError", "block sizes and correlations of different lengths are accepted")
  ELSE IF R.r # "ok" THEN <<"C26 block-diagonal correlation raises">>
  ELSE C26(M(R.cor) = (IF R.sizes = <<>> THEN <<>> ELSE Blocks(R.sizes, FParseSeq(R.cors))), "block-diagonal correlation has other entries than its blocks")
Rand ==
  LET c == M(R.cov)  s == FParseSeq(R.s)  v == M(R.v) IN
  IF R.r # "ok" THEN <<"C26 random matrix generator raises">> ELSE
  C26(Len(c) = R.n /\ \A i \in 1..Len(c) : Len(c[i]) = R.n, "random matrix has another dimension")
  \o (IF ~IsEigen(c, s, v) THEN <<"C26 random matrix is not symmetric">> ELSE
      C26(FLe(E("-1e-12"), FVMin(s)), "random matrix is not positive semidefinite")
      \o C26(R.kind = "rcov" \/ \A i \in 1..R.n : FClose(c[i][i], F1, F0, T12), "random correlation has no unit diagonal")
      \o C26(R.repro, "random matrix is not determined by the seed"))
Clauses == CASE R.kind = "cov" -> Conv [] R.kind = "eig" -> EigC [] R.kind = "block" -> Block [] R.kind \in {"rcov", "rcor"} -> Rand
TraceNext == Verdict(k, Clauses) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
