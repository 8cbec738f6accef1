----------------------------- MODULE ClusterTrace ---------------------------
(* Logged sessions of HC: the distance matrix the object reports, what it was *)
(* made from, its linkage, and the labels of each get_clusters call in order. *)
EXTENDS Hist, CorrDist, TraceKit, SequencesExt
VARIABLES k, meth, items, live, dist, log, parts, fails
tvars == <<k, meth, items, live, dist, log, parts, fails>>
INSTANCE Cluster WITH NInt <- FInt, Add <- FAdd, Sub <- FSub, Mul <- FMul, Div <- FDiv, Max2 <- FMax, Min2 <- FMin, Sqrt <- FSqrt
R == Trace[k]
E(s) == FParse(s)
TraceInit == /\ k \in 1..NRec /\ fails = <<>>
             /\ IF Trace[k].r = "ok" THEN CStart(Trace[k].m, Len(Trace[k].dist), FParseMat(Trace[k].dist))
                ELSE CStart(Trace[k].m, 0, <<>>)
             /\ parts = <<Partition>>
C24(c, t) == Chk(c, "C24 " \o R.m \o " linkage: " \o t)
T == Len(log) + 1
Step == R.link[T]
Tol == FMul(E("1e-9"), FAdd(E("1e-300"), FVMax(FParseSeq(Flat(R.dist)))))
Z(t) == E(t)
TMerge == /\ R.r = "ok" /\ T <= Len(R.link) /\ CanMerge(Step.a, Step.b)
          /\ LET h == dist[{Step.a, Step.b}] IN
             fails' = fails
               \o C24(FClose(E(Step.h), h, E("1e-8"), Tol), "merge is recorded at another distance")
               \o C24(\A s \in DOMAIN dist : FLe(h, FAdd(dist[s], FAdd(Tol, FMul(E("1e-8"), h)))), "a closer pair of clusters was not merged first")
               \o C24(Step.n = Size(Step.a) + Size(Step.b), "wrong cluster size")
          /\ Merge(Step.a, Step.b)
          /\ parts' = Append(parts, Partition')
          /\ UNCHANGED k
Classes(l) == {{i \in 1..Len(l) : l[i] = c} : c \in ToSet(l)}
Cuts ==
  LET bad(c) == c.r # "ok" \/ Len(c.l) # items \/ Classes(c.l) # parts[items - c.k + 1] IN
  C24(\A i \in 1..Len(R.cuts) : R.cuts[i].r = "ok" /\ Len(R.cuts[i].l) = items, "get_clusters raises or does not label every item")
  \o C24(\A i \in 1..Len(R.cuts) : R.cuts[i].r # "ok" \/ Cardinality(ToSet(R.cuts[i].l)) = R.cuts[i].k, "get_clusters does not use the requested number of labels")
  \o C24(\A i \in 1..Len(R.cuts) : ~bad(R.cuts[i]), "labels are not the clusters of the merges")
  \o C24(\A i, j \in 1..Len(R.cuts) : R.cuts[i].k = R.cuts[j].k => R.cuts[i].l = R.cuts[j].l, "labels depend on the order of calls")
  \o C24(R.again, "the linkage changes between calls")
(* The matrix the object uses. *)
Cols == [c \in 1..Len(R.cols) |-> FParseSeq(R.cols[c])]
D == FParseMat(R.dist)
Ranks(v) == TLCEval([i \in 1..Len(v) |-> FAdd(FInt(Cardinality({j \in 1..Len(v) : FLt(v[j], v[i])})), FQ(Cardinality({j \in 1..Len(v) : FEq(v[j], v[i])}) + 1, 2))])
Source ==
  CASE R.src = "dist" -> MatClose(D, FParseMat(R.given), F0, E("1e-12"))
    [] R.src = "corr" -> LET v == ConvMat(R.kind, FParseMat(R.given)) IN \A i, j \in 1..items : SameDist(D[i][j], v[i][j])
    [] R.src \in {"pearson", "spearman"} -> \A i, j \in 1..items : i # j =>
          SameDist(D[i][j], Conv(R.kind, IF R.src = "pearson" THEN FCor(Cols[i], Cols[j]) ELSE FCor(Ranks(Cols[i]), Ranks(Cols[j]))))
    [] R.src = "var_info" -> \A i, j \in 1..items : i >= j \/
          LET b == Optimal(Cols[i], Cols[j]) IN b = {} \/ (\E m \in b : Doubtful(Cols[i], m) \/ Doubtful(Cols[j], m)) \/
             \E m \in b : LET h == Ent(HistOf(Cols[i], m), Len(Cols[i]))  g == Ent(HistOf(Cols[j], m), Len(Cols[i]))  hg == Ent(Flat(JointOf(Cols[i], Cols[j], m)), Len(Cols[i]))
                          IN FClose(D[i][j], NVIof(h, g, hg), E("1e-9"), E("1e-9"))
End == IF R.want = "reject" THEN Chk(R.r # "ok", "C24 a clustering without the data it needs is accepted")
       ELSE IF R.r # "ok" THEN <<"C24 " \o R.m \o " linkage: raises">>
       ELSE C24(Source, "the distances used are not those of the given matrix")
            \o C24(Done, "the linkage does not end with all items in one cluster")
            \o C24(Len(R.link) = items - 1, "wrong number of merges")
            \o (IF Done THEN Cuts ELSE <<>>)
Stuck == ~(R.r = "ok" /\ T <= Len(R.link) /\ CanMerge(Step.a, Step.b))
TEnd == Stuck /\ Verdict(k, fails \o End) /\ UNCHANGED tvars
TraceNext == TMerge \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
