------------------------------- MODULE InfoMC -------------------------------
(* All pairs of short series over a few levels, and every number of bins.     *)
EXTENDS Info, Json, Emit
CONSTANTS MaxN, Levels, BinCounts
vars == <<x, y, nb, i, hx, hy, hxy>>
D(s) == TLCEval([j \in 1..Len(s) |-> FInt(s[j])])
Init == \E n \in 2..MaxN : \E a, b \in [1..n -> Levels], k \in BinCounts : Start(D(a), D(b), k)
Report == Counted /\ EmitLine(ToJson([x |-> [j \in 1..Len(x) |-> FFloorInt(x[j])], y |-> [j \in 1..Len(y) |-> FFloorInt(y[j])], bins |-> nb])) /\ UNCHANGED vars
Next == Count \/ Report
Spec == Init /\ [][Next]_vars
E == FParse("1e-12")
RECURSIVE Tot(_)
Tot(s) == IF s = <<>> THEN 0 ELSE Head(s) + Tot(Tail(s))
(* The joint histogram has the marginal histograms as margins. *)
Margins == /\ Tot(hx) = i /\ Tot(hy) = i
           /\ \A j \in 1..nb : Tot(hxy[j]) = hx[j] /\ Tot([k \in 1..nb |-> hxy[k][j]]) = hy[j]
Positive == Counted => FLe(FNeg(E), MI) /\ FLe(FNeg(E), VI) /\ FLe(F0, Hx)
AtMostOne == Counted => (FIsNaN(NMI) \/ FLe(NMI, FAdd(F1, E))) /\ (FIsNaN(NVI) \/ FLe(NVI, FAdd(F1, E)))
Histograms == Counted => hx = HistOf(x, nb) /\ hy = HistOf(y, nb) /\ hxy = JointOf(x, y, nb)
SelfZero == (Counted /\ x = y) => FClose(VI, F0, F0, E) /\ FClose(MI, Hx, F0, E) /\ FClose(KL, F0, F0, E)
=============================================================================
