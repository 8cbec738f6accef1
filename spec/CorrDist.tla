------------------------------ MODULE CorrDist ------------------------------
(* Correlation distances, for single correlations and entry by entry.         *)
EXTENDS Lin
Kinds == {"angular", "abs_angular", "squared_angular"}
Clip(c) == FMin(FMax(c, FInt(-1)), F1)
Conv(kind, c0) == LET c == Clip(c0) IN
  CASE kind = "angular" -> FSqrt(FDiv(FSub(F1, c), F2))
    [] kind = "abs_angular" -> FSqrt(FSub(F1, FAbs(c)))
    [] kind = "squared_angular" -> FSqrt(FSub(F1, FSq(c)))
(* sqrt magnifies rounding near zero, so squares are compared. *)
SameDist(o, v) == FClose(FSq(o), FSq(v), FParse("1e-9"), FParse("1e-13")) /\ FLe(F0, o)
IsSquare(m) == \A i \in 1..Len(m) : Len(m[i]) = Len(m)
Symmetric(m, tol) == \A i, j \in 1..Len(m) : FClose(m[i][j], m[j][i], F0, tol)
UnitDiagonal(m, tol) == \A i \in 1..Len(m) : FClose(m[i][i], F1, F0, tol)
(* Valid beyond doubt, and invalid beyond doubt. *)
Valid(m) == Len(m) > 0 /\ IsSquare(m) /\ Symmetric(m, FParse("1e-10")) /\ UnitDiagonal(m, FParse("1e-10"))
Invalid(m) == ~(IsSquare(m) /\ Symmetric(m, FParse("1e-4")) /\ UnitDiagonal(m, FParse("1e-4")))
ConvMat(kind, m) == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF i = j THEN F0 ELSE Conv(kind, FDiv(FAdd(m[i][j], m[j][i]), F2))]])
=============================================================================
