------------------------------ MODULE FreqTrace -----------------------------
(* Logged classifications: dates d (day numbers), the answer o for each of    *)
(* the containers; kind "other" for objects without dates, "dur" for codes    *)
(* and durations.                                                             *)
EXTENDS Freq, TraceKit, F64
VARIABLES k
tvars == <<k, n, last, on, step1, step13, step7>>
R == Trace[k]
TraceInit == k \in 1..NRec /\ FqStart
TRead == R.kind = "dates" /\ n < Len(R.d) /\ Read(R.d[n + 1]) /\ UNCHANGED k
C28(c, t) == Chk(c, "C28 " \o t)
Wide(c) == c \in {"YE", "YS", "QE", "QS", "ME", "MS"}
Clauses ==
  CASE R.kind = "dates" ->
         C28(\A i \in 1..Len(R.o) : R.o[i] = Class, (IF Class = "none" THEN "an index that is too short or irregular has a frequency" ELSE "index of frequency " \o Class \o " is given another"))
    [] R.kind = "other" -> C28(\A i \in 1..Len(R.o) : R.o[i] = "none", "an object without dates has a frequency")
    [] R.kind = "dur" ->
         (LET w == Duration(R.code) IN
          IF w = <<>> THEN C28(R.o = "none", "an unknown code has a duration")
          ELSE C28(R.o # "none" /\ FEq(FParse(R.o), FQ(w[1], w[2])), "duration of a code"))
TEnd == (R.kind # "dates" \/ n = Len(R.d)) = TRUE /\ Verdict(k, Clauses) /\ UNCHANGED tvars
TraceNext == TRead \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
