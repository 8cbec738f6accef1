------------------------------ MODULE InfoTrace -----------------------------
(* Logged calls of the information measures for one pair of variables.        *)
(* bins is <<>> (default) or <<n>>.  Without a given number, all numbers the  *)
(* documentation allows (more than one only when rounding decides) are tried. *)
EXTENDS Info, TraceKit
VARIABLES k
tvars == <<k, x, y, nb, i, hx, hy, hxy>>
R == Trace[k]
E(s) == FParse(s)
TraceInit == \E r \in 1..NRec : k = r /\
   LET a == FParseSeq(Trace[r].x)  b == FParseSeq(Trace[r].y) IN
   \E n \in (IF Trace[r].bins # <<>> THEN {Trace[r].bins[1]} ELSE LET o == Optimal(a, b) IN IF o = {} THEN {1} ELSE o) : Start(a, b, n)
Sure == R.exact \/ ~(Doubtful(x, nb) \/ Doubtful(y, nb))
Known == R.bins # <<>> \/ Optimal(x, y) # {}
Alone == R.bins # <<>> \/ \A n \in Optimal(x, y) : n = nb       \* nothing else to try
C(o, v) == FClose(E(o), v, E("1e-9"), E("1e-10"))
DefOk == /\ (R.bins # <<>> => C(R.h[1], Hx) /\ C(R.h[2], Hy) /\ C(R.h[3], Hxy))
         /\ C(R.mi, MI) /\ C(R.vi, VI) /\ C(R.kl, KL)
         /\ (FLt(E("1e-9"), FMul(Hx, Hy)) => C(R.nmi, NMI))
         /\ (FLt(E("1e-9"), Hxy) => C(R.nvi, NVI))
Spread == FLt(E("1e-9"), FMul(Hx, Hy))        \* otherwise the normalised measures divide zero by zero
Bounds == /\ FLe(E("-1e-9"), E(R.mi)) /\ FLe(E("-1e-9"), E(R.vi))
          /\ (~Spread \/ FIsNaN(E(R.nmi)) \/ FLe(E(R.nmi), E("1.000000001")))
          /\ (FIsNaN(E(R.nvi)) \/ FLe(E(R.nvi), E("1.000000001")))
Symmetric == C(R.mi, E(R.mi2)) /\ C(R.vi, E(R.vi2)) /\ (Spread => C(R.nmi, E(R.nmi2))) /\ C(R.nvi, E(R.nvi2))
SelfZero == C(R.vxx, F0)
Rest == Chk(Bounds, "C21 a measure leaves its bounds") \o Chk(Symmetric, "C21 a measure is not symmetric") \o Chk(SelfZero, "C21 the variation of a variable from itself is not 0")
TEnd == /\ Counted
        /\ Verdict(k, IF ~Sure \/ ~Known THEN <<"ok">> \o Rest
                      ELSE IF DefOk THEN <<"ok">> \o Rest
                      ELSE IF Alone THEN <<"C21 a measure differs from its histogram definition">> \o Rest
                      ELSE <<"maybe">> \o Rest)
        /\ UNCHANGED tvars
Bad == R.r # "ok" /\ i = 0 /\ Verdict(k, <<"C21 a measure raises for valid variables">>) /\ UNCHANGED tvars
TraceNext == IF R.r # "ok" THEN Bad ELSE (Count /\ UNCHANGED k) \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
