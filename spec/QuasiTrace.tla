------------------------------ MODULE QuasiTrace ----------------------------
(* Logged paths of QuasiRandom: base path, indicator of the base path without *)
(* its last row, and result, column by column.                                *)
EXTENDS Lin, TraceKit
VARIABLES k, c, ind, sig, cum, fails
tvars == <<k, c, ind, sig, cum, fails>>
Z == F0
INSTANCE Quasi WITH Zero <- Z, Plus <- FAdd, Undefined <- FIsNaN
R == Trace[k]
NCol == Len(R.base)
TraceInit == /\ \E i \in 1..NRec : k = i /\ Start(FParseSeq(Trace[i].ind[1]))
             /\ c = 1 /\ fails = <<>>
(* Standard deviation of the signal, as the library estimates it: rows 2..n-1, two degrees of freedom less. *)
SignalStd == FStd(SubSeq(sig, 2, Len(sig) - 1), 2)
Column ==
  LET b == FParseSeq(R.base[c])  o == FParseSeq(R.out[c])
      want == FMul(FMul(FParse(R.f), FParse(R.vol[c])), FSqrt(FParse(R.dt)))
      a == FDiv(want, SignalStd)
      tol == FMul(FParse("1e-9"), FAdd(FAdd(FVMax(FVAbs(b)), FVMax(FVAbs(FVScale(cum, a)))), FParse("1e-3")))
  IN Chk(Len(o) = Len(b), "C11 wrong number of rows")
     \o (IF Len(o) # Len(b) THEN <<>> ELSE
         Chk(FClose(o[1], b[1], FParse("1e-12"), F0), "C11 the first value is not x0")
         \o Chk(FVClose(o, FVAdd(b, FVScale(cum, a)), F0, tol), "C11 path is not base path plus the lagged, rescaled running sum of the indicator")
         \o Chk(~FEq(FParse(R.f), F0) \/ FVClose(o, b, FParse("1e-12"), F0), "C11 no signal should give the base path"))
Step == Lag /\ UNCHANGED <<k, c, fails>>
DoneCol == /\ Finished /\ c < NCol
           /\ fails' = fails \o Column /\ c' = c + 1
           /\ ind' = FParseSeq(R.ind[c+1]) /\ sig' = <<F0>> /\ cum' = <<F0>> /\ UNCHANGED k
TEnd == Finished /\ c = NCol /\ Verdict(k, fails \o Column \o Chk(Len(R.out) = NCol, "C11 wrong number of columns")) /\ UNCHANGED tvars
TraceNext == IF R.r # "ok" THEN Verdict(k, <<"C11 path_sample raises for valid arguments">>) /\ UNCHANGED tvars
             ELSE Step \/ DoneCol \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
