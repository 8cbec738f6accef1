----------------------------- MODULE MetricTrace ----------------------------
(* Logged metrics of one distance matrix d: for each of the partitions in     *)
(* parts, gap with spread and silhouette t-statistic; refs are the reference  *)
(* matrices (upper triangles count); best: the chosen numbers of clusters.    *)
EXTENDS Lin, TraceKit, SequencesExt, FiniteSets
VARIABLES k, gap, std, cand, chosen, fails
tvars == <<k, gap, std, cand, chosen, fails>>
FGe(a, b) == FLe(b, a)
INSTANCE Gap WITH Ge <- FGe, Sub <- FSub
R == Trace[k]
E(s) == FParse(s)
D == FParseMat(R.d)
N == Len(R.d)
K(l) == Cardinality(ToSet(l))
RECURSIVE Cat(_)
Cat(m) == IF m = <<>> THEN <<>> ELSE Head(m) \o Cat(Tail(m))
W(m, l) == FDiv(FSum(Cat(TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |-> IF l[i] = l[j] THEN FSq(m[i][j]) ELSE F0])]))), FInt(4 * K(l)))
(* reference: the upper triangle mirrored, zero diagonal *)
Ref(u) == TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |-> IF i = j THEN F0 ELSE IF i < j THEN u[i][j] ELSE u[j][i]])])
LogW(u, l) == LET w == W(Ref(u), l) IN IF FEq(w, F0) THEN F0 ELSE FLog(w)
Logs(refs, l) == TLCEval([b \in 1..Len(refs) |-> LogW(refs[b], l)])
GapOf(lw, l) == FSub(FMean(lw), FLog(W(D, l)))
Spread(lw) == FStd(lw, 0)
(* Silhouettes. *)
MeanTo(i, c) == FMean(TLCEval([t \in 1..Len(c) |-> D[i][c[t]]]))
Members(l, c, not) == SelectSeq([i \in 1..N |-> i], LAMBDA i : l[i] = c /\ i # not)
Silh(i, l) ==
  LET own == Members(l, l[i], i) IN
  IF own = <<>> THEN F0 ELSE
  LET a == MeanTo(i, own)
      others == ToSet(l) \ {l[i]}
      b == FVMin(SetToSeq({MeanTo(i, Members(l, c, 0)) : c \in others}))
      m == FMax(a, b)
  IN IF FEq(m, F0) THEN F0 ELSE FDiv(FSub(b, a), m)
TStat(l) == LET s == TLCEval([i \in 1..N |-> Silh(i, l)]) IN FDiv(FMean(s), FStd(s, 0))
Degenerate(l) == LET s == TLCEval([i \in 1..N |-> Silh(i, l)]) IN FLe(FStd(s, 0), E("1e-9"))
TraceInit == /\ k \in 1..NRec /\ fails = <<>>
             /\ IF Trace[k].scan THEN SStart(FParseSeq(Trace[k].gaps), FParseSeq(Trace[k].stds)) ELSE SStart(<<F0>>, <<F0>>)
C25(c, t) == Chk(c, "C25 " \o t)
TScan == R.scan /\ Scan /\ UNCHANGED <<k, fails>>
(* Is some decision of the scan a matter of rounding? *)
Close == \E c \in 2..(Top - 1) : FClose(gap[c - 1], FSub(gap[c], std[c]), E("1e-9"), E("1e-9")) \/ ~FIsFin(gap[c - 1]) \/ FIsNaN(gap[c])
Parts == LET refs == TLCEval([b \in 1..Len(R.refs) |-> TLCEval(FParseMat(R.refs[b]))]) IN
  FoldSeq(LAMBDA p, acc : acc \o
    (LET l == p.l  lw == Logs(refs, l)  w == W(D, l) IN
     IF p.gap.r # "ok" THEN <<"C25 gap_statistic raises">> ELSE
     (IF FEq(w, F0) THEN <<>> ELSE C25(FClose(E(p.gap.o), GapOf(lw, l), E("1e-9"), E("1e-9")), "gap is not the mean reference ln W minus ln W"))
     \o C25(FClose(E(p.gap.s), Spread(lw), E("1e-9"), E("1e-9")), "spread is not the standard deviation over the references")
     \o C25(\A a \in ToSet(p.alts) : FClose(E(a[1]), E(p.gap.o), E("1e-12"), E("1e-12")) /\ FClose(E(a[2]), E(p.gap.s), E("1e-12"), E("1e-12")), "gap depends on the names of labels, the container or earlier calls")
     \o (IF K(l) < 2 \/ K(l) >= N THEN <<>>
         ELSE IF p.silh.r # "ok" THEN <<"C25 silhouette_tstat raises">>
         ELSE IF Degenerate(l) THEN <<>>
         ELSE C25(FClose(E(p.silh.o), TStat(l), E("1e-8"), E("1e-8")), "silhouette t-statistic is not mean over standard deviation of the silhouettes"))),
    <<>>, R.parts)
Tstats == FParseSeq(R.tstats)
Best ==
  C25(R.bad = "ValueError", "an unknown way of choosing is not rejected with ValueError") \o
  C25(R.best.gap = chosen \/ Close, "gap optimum is not the smallest candidate whose gap is at least the next less its spread")
  \o C25(R.best.gap \in 2..R.max, "optimal number is outside 2..max_clust")
  \o (IF R.best.silh = 0 THEN <<>> ELSE
      C25(R.best.silh \in 2..R.max, "optimal number is outside 2..max_clust")
      \o (IF R.best.silh \notin 2..R.max \/ \E i \in 1..Len(Tstats) : FIsNaN(Tstats[i]) THEN <<>> ELSE
          C25(FLe(FSub(FVMax(Tstats), E("1e-9")), Tstats[R.best.silh - 1]), "silhouette optimum does not maximise the t-statistic")
          \o C25(\A i \in 1..(R.best.silh - 2) : FLt(Tstats[i], FVMax(Tstats)) \/ ~FEq(Tstats[R.best.silh - 1], FVMax(Tstats)), "silhouette optimum is not the first maximiser")))
TEnd == /\ (~R.scan \/ chosen # 0) = TRUE
        /\ Verdict(k, IF R.r # "ok" THEN <<"C25 optimal number: raises">> ELSE Parts \o (IF R.scan THEN Best ELSE <<>>)) /\ UNCHANGED tvars
TraceNext == TScan \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
