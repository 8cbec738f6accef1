------------------------------ MODULE CorrTrace -----------------------------
(* Logged conversions: shape "number" (c), "matrix" (m), "frame" (m) or       *)
(* "pair" (x, y, result o).                                                   *)
EXTENDS CorrDist, TraceKit
VARIABLES k, at, fails
tvars == <<k, at, fails>>
R == Trace[k]
E(s) == FParse(s)
TraceInit == k \in 1..NRec /\ at = 0 /\ fails = <<>>
Chk20(c, t) == Chk(c, "C20 " \o R.kind \o ": " \o t)
Number == LET c == IF R.shape = "pair" THEN FCor(FParseSeq(R.x), FParseSeq(R.y)) ELSE E(R.c)  o == E(R.o) IN
  Chk20(SameDist(o, Conv(R.kind, c)), IF R.shape = "pair" THEN "pair distance is not the distance of the Pearson correlation" ELSE "distance of a number is not the documented function")
  \o Chk20(FLe(F0, o) /\ FLe(o, F1), "distance leaves [0,1]")
M == FParseMat(R.m)
D == FParseMat(R.d)
TRow == /\ R.shape \in {"matrix", "frame"} /\ R.r = "ok" /\ Valid(M) /\ Len(D) = Len(M) /\ at < Len(M)
        /\ LET i == at + 1  o == D[i]  v == ConvMat(R.kind, M)[i]  n == Len(M) IN
           fails' = fails
             \o Chk20(Len(o) = n /\ \A j \in 1..n : SameDist(o[j], v[j]), "entry is not the documented function of the correlation")
             \o Chk20(\A j \in 1..Len(o) : FLe(F0, o[j]) /\ FLe(o[j], F1), "distance leaves [0,1]")
             \o (IF R.shape = "frame" THEN <<>> ELSE
                 Chk20(FEq(o[i], F0), "diagonal is not zero") \o Chk20(\A j \in 1..Len(o) : FEq(D[j][i], o[j]), "result is not symmetric"))
        /\ at' = at + 1 /\ UNCHANGED k
Final == IF R.shape \in {"number", "pair"} THEN (IF R.r = "ok" THEN Number ELSE <<"C20 " \o R.kind \o ": raises">>)
         ELSE IF Valid(M) THEN Chk20(R.r = "ok", "valid matrix is rejected") \o Chk20(R.same, "the input matrix is changed")
                               \o (IF R.r = "ok" THEN Chk20(Len(D) = Len(M), "wrong shape") ELSE <<>>)
         ELSE IF Invalid(M) /\ R.shape = "matrix" THEN Chk20(R.r # "ok", "invalid matrix is accepted")
         ELSE <<>>
TEnd == /\ ((R.shape \in {"number", "pair"}) \/ R.r # "ok" \/ ~Valid(M) \/ Len(D) # Len(M) \/ at = Len(M)) = TRUE
        /\ Verdict(k, fails \o Final) /\ UNCHANGED tvars
TraceNext == TRow \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
