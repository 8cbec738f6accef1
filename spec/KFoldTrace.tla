----------------------------- MODULE KFoldTrace -----------------------------
(* Logged sweeps of TimeAwareKFold against KFold.  A record holds the         *)
(* settings and data (c), the number of splits the object announced (nsp),    *)
(* the splits it yielded (ys) and how the sweep ended ("stop" or the          *)
(* exception).                                                                *)
EXTENDS KFold, TraceKit
VARIABLES k, fails
tvars == <<vars, k, fails>>
R == Trace[k]
AscIdx == [i \in 1..N |-> i - 1]
SeqOf(s) == SelectSeq(AscIdx, LAMBDA i : i \in s)
SetOf(q) == {q[i] : i \in 1..Len(q)}
TraceInit == \E i \in 1..NRec : k = i /\ Start(Trace[i].c) /\ fails = <<>>

Silent == (Cut \/ Shift \/ Shifted) /\ UNCHANGED <<k, fails>>
(* A split that must be yielded, against the split that was.                  *)
OnYield == /\ Yield /\ UNCHANGED k
  /\ LET m == Len(out) + 1 IN fails' = fails \o
       IF m > Len(R.ys)
       THEN IF m = Len(R.ys) + 1
            THEN <<"C01 a split is missing or an exception was raised although the setting is feasible">>
                 \o Chk(m = 1 \/ R.end = "stop", "C02 an exception was raised although training samples remain")
            ELSE <<>>
       ELSE LET y == R.ys[m]  t == SetOf(y.te) IN
            Chk(y.te = SeqOf(Fold(fold)), "C01 test fold is not the equal-size fold moved to the end of its group")
            \o (IF t = {} \/ ~(t \subseteq Idx) THEN <<"C01 test fold is empty or out of range">>
                ELSE Chk(y.tr = SeqOf(Train(t)), "C02 training set is not exactly the samples that cannot leak"))
(* Settings for which no fold can be made, or no training sample is left.     *)
OnReject == /\ (Reject \/ Span) /\ UNCHANGED k
  /\ fails' = fails \o Chk(R.end # "stop" /\ Len(R.ys) = 0, "C01 a setting that cannot be split is not rejected")
OnStarve == /\ Starve /\ UNCHANGED k
  /\ fails' = fails \o Chk(Len(R.ys) = Len(out) /\ R.end = "ValueError", "C02 a split without training samples does not raise ValueError")
OnDone == /\ Done /\ UNCHANGED k
  /\ fails' = fails \o Chk(Len(R.ys) <= Len(out), "C01 more splits than announced")
                    \o Chk(Len(R.ys) < Len(out) \/ R.end = "stop", "C01 an exception was raised after the last split")
OnEnd == /\ phase \in {"done", "error"}
         /\ Verdict(k, fails \o Chk(R.nsp = NSplits, "C01 get_n_splits is wrong"))
         /\ UNCHANGED tvars
TraceNext == Silent \/ OnYield \/ OnReject \/ OnStarve \/ OnDone \/ OnEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
