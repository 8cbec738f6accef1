------------------------------- MODULE SimLife ------------------------------
(* Life of a simulation model: fitted, scored and sampled in any order.       *)
(* Values (prices, parameters, dt) are opaque here; what matters is which     *)
(* values a call uses, and how its output is laid out.                        *)
(* Optional values are sequences of length 0 or 1.                            *)
EXTENDS Integers, Sequences, TLC, Cal

NoIndex == [has |-> FALSE, min |-> 0, max |-> 0, tod |-> 0, freq |-> [k |-> "none", a |-> 0], name |-> "none"]
NotFitted == [is |-> FALSE, x0 |-> <<>>, xn |-> <<>>, dt |-> <<>>, cont |-> "none", cols |-> <<>>, idx |-> NoIndex]

(* dt of data: given, else the duration of the frequency of its dates, else 1/252.      *)
(* A dt is <<"given", v>> or <<"ratio", n, d>>.                                          *)
DtOfFreq(k) == <<"ratio", Duration(k)[1], Duration(k)[2]>>
DefaultDt == <<"ratio", 1, 252>>
DataDt(dt, idx) == IF dt # <<>> THEN <<"given", dt[1]>>
                   ELSE IF idx.has /\ Duration(idx.freq.k) # <<>> THEN DtOfFreq(idx.freq.k) ELSE DefaultDt
(* What a model remembers of the data it was fitted on. *)
FitState(x, dt, cont, cols, idx) ==
  [is |-> TRUE, x0 |-> x[1], xn |-> x[Len(x)], dt |-> DataDt(dt, idx), cont |-> cont, cols |-> cols, idx |-> idx]

(* Arguments of path_sample: x0k ("none", "first", "last", "value"), x0, dt, steps, paths, ls (start label: day), lf, cols, inc. *)
Rejects(f, a) == a.x0k \in {"first", "last"} /\ ~f.is
EffX0(f, a, default) == CASE a.x0k = "value" -> a.x0
                          [] a.x0k = "last"  -> f.xn
                          [] a.x0k = "first" -> f.x0
                          [] OTHER -> IF f.is THEN f.x0 ELSE default
EffDt(f, a) == IF a.dt # <<>> THEN <<"given", a.dt[1]>>
               ELSE IF a.lf.k # "none" /\ Duration(a.lf.k) # <<>> THEN DtOfFreq(a.lf.k)
               ELSE IF f.is THEN f.dt ELSE DefaultDt
EffStart(f, a) == IF a.ls # <<>> THEN [d |-> a.ls[1], tod |-> 0]
                  ELSE [d |-> IF a.x0k = "last" THEN f.idx.max ELSE f.idx.min, tod |-> f.idx.tod]
EffFreq(f, a) == IF a.lf.k # "none" THEN a.lf ELSE f.idx.freq

WantDates(f, a) == f.idx.has \/ a.ls # <<>> \/ a.lf.k # "none"
WantPandas(f, a) == WantDates(f, a) \/ a.cols # <<>> \/ f.cont \in {"Series", "DataFrame"}
Container(f, a, nvar) == IF ~WantPandas(f, a) THEN "ndarray"
                         ELSE IF nvar * a.paths = 1 /\ (~f.is \/ f.cont = "Series") THEN "Series" ELSE "DataFrame"
Digit(i) == ToString(i)
Base(f, a, nvar) == IF a.cols # <<>> THEN a.cols
                    ELSE IF f.cols # <<>> THEN f.cols
                    ELSE IF nvar = 1 THEN <<"S">> ELSE [i \in 1..nvar |-> "S" \o Digit(i - 1)]
Names(f, a, nvar) == IF a.paths = 1 THEN Base(f, a, nvar)
                     ELSE [c \in 1..(nvar * a.paths) |->
                             Base(f, a, nvar)[((c - 1) % nvar) + 1] \o "_" \o Digit((c - 1) \div nvar)]
Rows(a) == IF a.inc THEN a.steps + 1 ELSE a.steps
Labels(f, a) == LET all == Range(EffFreq(f, a), EffStart(f, a).d, a.steps + 1)
                IN IF a.inc THEN all ELSE Tail(all)
(* Column c of the output is variate VarOf(c) of path PathOf(c). *)
VarOf(c, nvar) == ((c - 1) % nvar) + 1
PathOf(c, nvar) == ((c - 1) \div nvar) + 1
ColOf(p, v, nvar) == (p - 1) * nvar + v
=============================================================================
