------------------------------- MODULE Diverge ------------------------------
(* Divergences of positive definite matrices.                                 *)
EXTENDS Lin
Trace_(m) == FSum(TLCEval([i \in 1..Len(m) |-> m[i][i]]))
LogDet(l) == FMul(F2, FSum(TLCEval([i \in 1..Len(l) |-> FLog(l[i][i])])))       \* from the Cholesky factor
(* tr(p q^-1) - ln det(p q^-1) - n with p = A A', q = B B': tr = |B^-1 A|^2.   *)
LogDetDiv(p, q) ==
  LET a == TLCEval(Chol(p))  b == TLCEval(Chol(q))  n == Len(p)
      s == FSum(TLCEval([j \in 1..n |-> LET z == Solve(b, Col(a, j)) IN FDot(z, z)]))
  IN FSub(FSub(s, FSub(LogDet(a), LogDet(b))), FInt(n))
(* tr(p (ln p - ln q)) + tr(q - p); with p = V diag(s) V' and q = W diag(t) W'. *)
VonNeumann(s, v, t, w) ==       \* v, w: sequences of eigenvectors
  LET n == Len(s)
      plogp == FSum(TLCEval([i \in 1..n |-> FMul(s[i], FLog(s[i]))]))
      plogq == FSum(TLCEval([i \in 1..n |-> FSum(TLCEval([j \in 1..n |-> FMul(FMul(s[i], FLog(t[j])), FSq(FDot(v[i], w[j])))]))]))
  IN FAdd(FSub(plogp, plogq), FSub(FSum(t), FSum(s)))
=============================================================================
