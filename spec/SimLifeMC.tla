------------------------------ MODULE SimLifeMC -----------------------------
(* All histories of fit, score and sample up to MaxOps calls, over abstract   *)
(* data sets, on one model.  The histories are emitted for replay.            *)
EXTENDS SimLife, FiniteSets, TLC, Json, Emit
CONSTANT MaxOps
VARIABLES fit, hist
vars == <<fit, hist>>
F(k) == [k |-> k, a |-> 0]
Data == [A |-> [x |-> <<"a1", "a2", "a3">>, cont |-> "DataFrame", cols |-> <<"p">>, idx |-> [has |-> TRUE, min |-> 18000, max |-> 18002, tod |-> 0, freq |-> F("D"), name |-> "when"]],
         B |-> [x |-> <<"b1", "b2", "b3">>, cont |-> "Series", cols |-> <<"q">>, idx |-> [has |-> TRUE, min |-> 18291, max |-> 18351, tod |-> 0, freq |-> F("ME"), name |-> "none"]],
         C |-> [x |-> <<"c1", "c2", "c3">>, cont |-> "Series", cols |-> <<"r">>, idx |-> NoIndex],
         D |-> [x |-> <<"d1", "d2", "d3">>, cont |-> "ndarray", cols |-> <<>>, idx |-> NoIndex]]
Dts == {<<>>, <<"dt">>}
Args == [x0k : {"none", "first", "last", "value"}, x0 : {<<"v">>}, dt : Dts, steps : {2}, paths : {1, 2},
         ls : {<<>>, <<18100>>}, lf : {F("none"), F("W")}, cols : {<<>>}, inc : {TRUE}]
(* Calls that are specified: date labels need a start and a frequency, and an *)
(* explicit x0 has no date of its own.                                        *)
Defined(f, a) == /\ (a.lf.k # "none" \/ a.ls # <<>>) => (a.ls # <<>> \/ f.idx.has) /\ (a.lf.k # "none" \/ f.idx.freq.k # "none")
                 /\ (a.x0k = "value" /\ f.idx.has) => a.ls # <<>>
Init == fit = NotFitted /\ hist = <<>>
Op(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o)
DoFit == \E n \in DOMAIN Data, dt \in Dts : LET d == Data[n] IN
           /\ Op([o |-> "fit", data |-> n, dt |-> dt])
           /\ fit' = FitState(d.x, dt, d.cont, d.cols, d.idx)
DoScore == \E n \in DOMAIN Data, w \in {"nll", "aic", "bic"} :
           Op([o |-> "score", data |-> n, what |-> w]) /\ UNCHANGED fit
DoSample == \E a \in Args : Defined(fit, a) /\ Op([o |-> "sample", a |-> a]) /\ UNCHANGED fit
Report == Len(hist) = MaxOps /\ EmitLine(ToJson(hist)) /\ UNCHANGED vars
Next == DoFit \/ DoScore \/ DoSample \/ Report
Spec == Init /\ [][Next]_vars

(* The remembered state is a function of the most recent fit alone. *)
Fits == {i \in 1..Len(hist) : hist[i].o = "fit"}
LastFit == IF Fits = {} THEN NotFitted
           ELSE LET o == hist[CHOOSE i \in Fits : \A j \in Fits : j <= i]  d == Data[o.data]
                IN FitState(d.x, o.dt, d.cont, d.cols, d.idx)
FromLastFit == fit = LastFit
(* Layout: names are distinct, variates of a path adjacent, columns and (path, variate) pairs correspond one to one. *)
LayoutOK == \A nv \in 1..3, p \in 1..3 :
  LET a == [x0k |-> "none", x0 |-> <<>>, dt |-> <<>>, steps |-> 2, paths |-> p, ls |-> <<18100>>, lf |-> F("B"), cols |-> <<>>, inc |-> TRUE]
      n == Names(NotFitted, a, nv)
  IN /\ Cardinality({n[c] : c \in 1..(nv * p)}) = nv * p
     /\ \A c \in 1..(nv * p) : ColOf(PathOf(c, nv), VarOf(c, nv), nv) = c
     /\ \A q \in 1..p, v \in 1..(nv - 1) : ColOf(q, v + 1, nv) = ColOf(q, v, nv) + 1
LabelsOK == \A fk \in {"D", "B", "W", "ME", "MS", "QE", "QS", "YE", "YS"}, d \in {18000, 18291, 18320, 18627} :
  LET r == Range(F(fk), d, 4) IN \A i \in 1..4 : On(F(fk), r[i]) /\ r[i] >= d /\ (i > 1 => r[i] > r[i-1] /\ \A x \in (r[i-1]+1)..(r[i]-1) : ~On(F(fk), x))
ASSUME LayoutOK /\ LabelsOK
ASSUME \A d \in 10000..10800 : LET c == Civil(d) IN DayNo(c.y, c.m, c.d) = d
=============================================================================
