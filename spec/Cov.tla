--------------------------------- MODULE Cov --------------------------------
(* Covariance, correlation and eigenvalue forms of a matrix.  The numbers are *)
(* a parameter: exact rationals in CovMC, doubles in CovTrace.                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Zero, One, NInt(_), Add(_, _), Sub(_, _), Mul(_, _), Div(_, _), Sqrt(_), Max2(_, _), Min2(_, _), Sum(_)
Vec(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])
Mat(n, f(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> f(i, j)])])
Clip(x) == Max2(Sub(Zero, One), Min2(One, x))
Stds(cov, floor) == Vec(Len(cov), LAMBDA i : Max2(Sqrt(Max2(cov[i][i], Zero)), floor))
CorOf(cov, std) == Mat(Len(cov), LAMBDA i, j : Clip(Div(cov[i][j], Mul(std[i], std[j]))))
CovOf(cor, std) == Mat(Len(cor), LAMBDA i, j : Mul(cor[i][j], Mul(std[i], std[j])))
(* Block-diagonal correlations. *)
RECURSIVE Start(_, _)
Start(sizes, b) == IF b = 1 THEN 0 ELSE Start(sizes, b - 1) + sizes[b - 1]
Total(sizes) == Start(sizes, Len(sizes) + 1)
InBlock(sizes, b, i) == i > Start(sizes, b) /\ i <= Start(sizes, b) + sizes[b]
BlockOf(sizes, i) == CHOOSE b \in 1..Len(sizes) : InBlock(sizes, b, i)
Blocks(sizes, cors) ==
  Mat(Total(sizes), LAMBDA i, j : IF i = j THEN One
                                  ELSE IF BlockOf(sizes, i) = BlockOf(sizes, j) THEN cors[BlockOf(sizes, i)] ELSE Zero)
(* sum of s[i] * v[i] v[i]', entries clipped, unit diagonal *)
FromEig(s, v) ==
  Mat(Len(v[1]), LAMBDA i, j : IF i = j THEN One ELSE Clip(Sum([c \in 1..Len(s) |-> Mul(s[c], Mul(v[c][i], v[c][j]))])))
(* The values of a completed spectrum: the kept ones, then the remainder of the dimension in equal parts. *)
CompleteVals(kept, n) ==
  IF Len(kept) >= n THEN kept
  ELSE LET rest == Div(Sub(NInt(n), Sum(kept)), NInt(n - Len(kept)))
       IN Vec(n, LAMBDA i : IF i <= Len(kept) THEN kept[i] ELSE rest)
=============================================================================
