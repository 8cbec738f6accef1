--------------------------------- MODULE Lin --------------------------------
(* Vectors and matrices of doubles; a matrix is a sequence of rows.           *)
EXTENDS F64, TLC
FParseMat(m) == TLCEval([i \in 1..Len(m) |-> FParseSeq(m[i])])
Col(m, j) == TLCEval([i \in 1..Len(m) |-> m[i][j]])
Transp(m) == TLCEval([j \in 1..Len(m[1]) |-> Col(m, j)])
MatVec(m, x) == TLCEval([i \in 1..Len(m) |-> FDot(m[i], x)])
MatMul(a, b) == LET t == Transp(b) IN TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(t) |-> FDot(a[i], t[j])]])
MatClose(a, b, rtol, atol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FVClose(a[i], b[i], rtol, atol)
Eye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN F1 ELSE F0]])
Diff(s) == TLCEval([i \in 1..(Len(s) - 1) |-> FSub(s[i+1], s[i])])
Prefix(s, n) == SubSeq(s, 1, n)

(* Cholesky factor, row by row: L[i][j] for j <= i, zero above the diagonal.  *)
RECURSIVE CholRow(_, _, _, _)
CholRow(a, l, i, row) ==       \* row = L[i][1..j-1], computes the rest of row i
  LET j == Len(row) + 1 IN
  IF j > Len(a) THEN row
  ELSE IF j > i THEN CholRow(a, l, i, Append(row, F0))
  ELSE IF j = i THEN CholRow(a, l, i, Append(row, FSqrt(FSub(a[i][i], FDot(row, row)))))
  ELSE CholRow(a, l, i, Append(row, FDiv(FSub(a[i][j], FDot(row, Prefix(l[j], j - 1))), l[j][j])))
RECURSIVE CholUpTo(_, _)
CholUpTo(a, n) == IF n = 0 THEN <<>> ELSE LET l == CholUpTo(a, n - 1) IN Append(l, CholRow(a, l, n, <<>>))
Chol(a) == CholUpTo(a, Len(a))
(* Solves L y = x for a lower triangular L. *)
RECURSIVE FwdSub(_, _, _)
FwdSub(l, x, y) == LET i == Len(y) + 1 IN
  IF i > Len(x) THEN y
  ELSE FwdSub(l, x, Append(y, FDiv(FSub(x[i], FDot(y, Prefix(l[i], i - 1))), l[i][i])))
Solve(l, x) == FwdSub(l, x, <<>>)
CorMatrix(cols) == TLCEval([i \in 1..Len(cols) |-> [j \in 1..Len(cols) |-> FCor(cols[i], cols[j])]])
(* Is (s, v) an eigendecomposition of p? *)
IsEigen(p, s, v) ==
  LET n == Len(p)  tol == FMul(FParse("1e-11"), FVMax(FVAbs(s))) IN
  /\ Len(s) = n /\ Len(v) = n
  /\ \A i, j \in 1..n : FClose(FDot(v[i], v[j]), IF i = j THEN F1 ELSE F0, F0, FParse("1e-11"))
  /\ \A i \in 1..n : FVClose(MatVec(p, v[i]), FVScale(v[i], s[i]), F0, tol)
=============================================================================
