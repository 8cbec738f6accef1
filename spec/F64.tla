-------------------------------- MODULE F64 ---------------------------------
(* IEEE 754 double arithmetic for trace validation.  A double is the pair     *)
(* <<high 32 bits, low 32 bits>>.  TLC evaluates these operators with         *)
(* lib/java/F64.java; the definitions here only fix the signatures.           *)
EXTENDS Integers, Sequences
LOCAL Undef == CHOOSE x \in {} : TRUE
FParse(s) == Undef            \* decimal string (Python repr) to double
FParseSeq(s) == Undef
FShow(a) == Undef
FInt(n) == Undef              \* integer to double
FQ(n, d) == Undef             \* the double nearest to n/d
FAdd(a, b) == Undef
FSub(a, b) == Undef
FMul(a, b) == Undef
FDiv(a, b) == Undef
FNeg(a) == Undef
FAbs(a) == Undef
FSgn(a) == Undef
FSqrt(a) == Undef
FLog(a) == Undef
FExp(a) == Undef
FPow(a, b) == Undef
FIPow(a, n) == Undef
FRint(a) == Undef             \* round half even
FFloorInt(a) == Undef
FMax(a, b) == Undef
FMin(a, b) == Undef
FLt(a, b) == Undef
FLe(a, b) == Undef
FEq(a, b) == Undef
FIsNaN(a) == Undef
FIsFin(a) == Undef
FSum(s) == Undef              \* compensated sum of a sequence
FDot(s, t) == Undef
FClose(a, b, rtol, atol) == Undef   \* |a-b| <= atol + rtol*max(|a|,|b|), NaN ~ NaN
FTCdf(x, df) == Undef         \* distribution function of Student's t
FNCdf(x) == Undef             \* distribution function of the standard normal
FSort(s) == Undef             \* ascending
(* Elementwise operations on sequences; evaluated in Java for speed.          *)
FVAdd(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
FVSub(a, b) == [i \in 1..Len(a) |-> FSub(a[i], b[i])]
FVMul(a, b) == [i \in 1..Len(a) |-> FMul(a[i], b[i])]
FVDiv(a, b) == [i \in 1..Len(a) |-> FDiv(a[i], b[i])]
FVScale(a, c) == [i \in 1..Len(a) |-> FMul(a[i], c)]
FVShift(a, c) == [i \in 1..Len(a) |-> FAdd(a[i], c)]
FVLog(a) == [i \in 1..Len(a) |-> FLog(a[i])]
FVExp(a) == [i \in 1..Len(a) |-> FExp(a[i])]
FVSqrt(a) == [i \in 1..Len(a) |-> FSqrt(a[i])]
FVAbs(a) == [i \in 1..Len(a) |-> FAbs(a[i])]
FVMax(a) == Undef             \* largest element, NaN if there is a NaN
FVMin(a) == Undef
FVClose(a, b, rtol, atol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], rtol, atol)
F0 == FInt(0)
F1 == FInt(1)
F2 == FInt(2)
FNaN == FParse("nan")
FSq(a) == FMul(a, a)
FMean(s) == FDiv(FSum(s), FInt(Len(s)))
FDev(s) == FVShift(s, FNeg(FMean(s)))
FSS(s) == LET d == FDev(s) IN FDot(d, d)              \* sum of squared deviations
FVar(s, ddof) == FDiv(FSS(s), FInt(Len(s) - ddof))
FStd(s, ddof) == FSqrt(FVar(s, ddof))
FCov(s, t) == FDot(FDev(s), FDev(t))                  \* sum of products of deviations
FCor(s, t) == FDiv(FCov(s, t), FSqrt(FMul(FSS(s), FSS(t))))
=============================================================================
