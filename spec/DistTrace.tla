------------------------------ MODULE DistTrace -----------------------------
(* Logged distance matrices.  cols: the columns of the data; what: "corr" or  *)
(* "info" with opt; d: result; alts: results for selected, reordered columns. *)
EXTENDS Hist, CorrDist, TraceKit, SequencesExt
VARIABLES k, n, dm, ij
tvars == <<k, n, dm, ij>>
R == Trace[k]
E(s) == FParse(s)
Cols == [c \in 1..Len(R.cols) |-> FParseSeq(R.cols[c])]
Ranks(v) == TLCEval([i \in 1..Len(v) |-> FAdd(FInt(Cardinality({j \in 1..Len(v) : FLt(v[j], v[i])})), FQ(Cardinality({j \in 1..Len(v) : FEq(v[j], v[i])}) + 1, 2))])
CorrOf(a, b) == IF R.opt.corr = "spearman" THEN FCor(Ranks(a), Ranks(b)) ELSE FCor(a, b)
Transformed(c) == CASE R.opt.tr = "none" -> c [] R.opt.tr = "shrink" -> FMul(FQ(1, 2), c) [] R.opt.tr = "abs" -> FAbs(c) [] R.opt.tr = "square" -> FSq(c)
InfoOf(a, b, m) ==
  LET h == Ent(HistOf(a, m), Len(a))  g == Ent(HistOf(b, m), Len(a))  hg == Ent(Flat(JointOf(a, b, m)), Len(a)) IN
  CASE R.opt.method = "mutual_info" -> IF R.opt.norm THEN NMIof(h, g, hg) ELSE MIof(h, g, hg)
    [] R.opt.method = "var_info" -> IF R.opt.norm THEN NVIof(h, g, hg) ELSE VIof(h, g, hg)
(* The values a cell may have; <<"any">> when rounding decides about a bin. *)
Cell(a, b) ==
  LET u == Cols[a]  v == Cols[b] IN
  IF R.what = "corr" THEN [any |-> FALSE, v |-> {Conv(R.opt.kind, Transformed(CorrOf(u, v)))}]
  ELSE LET bins == IF R.opt.bins # <<>> THEN {R.opt.bins[1]} ELSE Optimal(u, v) IN
       IF bins = {} \/ \E m \in bins : Doubtful(u, m) \/ Doubtful(v, m) THEN [any |-> TRUE, v |-> {}]
       ELSE [any |-> FALSE, v |-> {InfoOf(u, v, m) : m \in bins}]
Diag(r) == [any |-> FALSE, v |-> {IF r.what = "info" /\ r.opt.method = "mutual_info" THEN F1 ELSE F0}]
M == INSTANCE DistMat
TraceInit == k \in 1..NRec /\ M!DStart(Len(Trace[k].cols), Diag(Trace[k]))
Same(o, v) == IF R.what = "corr" THEN SameDist(o, v) ELSE FClose(o, v, E("1e-9"), E("1e-10"))
D == FParseMat(R.d)
Shape(d, m) == Len(d) = m /\ \A i \in 1..m : Len(d[i]) = m
C23(c, t) == Chk(c, "C23 " \o R.what \o ": " \o t)
(* Diagonals of frames may be off by rounding; those of arrays are exact. *)
Clauses ==
  IF R.want # "ok" THEN C23(R.r # "ok", "an unknown method is accepted")
  ELSE IF R.r # "ok" THEN <<"C23 " \o R.what \o ": raises">>
  ELSE C23(R.cont, "another container or other labels than those of the data")
   \o (IF ~Shape(D, n) THEN <<"C23 " \o R.what \o ": wrong shape">> ELSE
       C23(\A i, j \in 1..n : i = j \/ dm[i][j].any \/ \E v \in dm[i][j].v : Same(D[i][j], v), "entry is not the distance of its two columns")
       \o C23(\A i \in 1..n : \E v \in dm[i][i].v : FClose(D[i][i], v, F0, E("1e-7")), "wrong diagonal")
       \o C23(\A i, j \in 1..n : FClose(D[i][j], D[j][i], F0, E("1e-9")), "not symmetric")
       \o C23(\A a \in ToSet(R.alts) :
                a.r = "ok" /\ LET d == FParseMat(a.d) IN Shape(d, Len(a.sel)) /\
                \A i, j \in 1..Len(a.sel) : Same(d[i][j], D[a.sel[i]][a.sel[j]]), "selecting or reordering columns, or another container, changes entries"))
TFill == R.r = "ok" /\ R.want = "ok" /\ M!Fill(Cell) /\ UNCHANGED k
TEnd == /\ (R.r # "ok" \/ R.want # "ok" \/ M!Filled) = TRUE /\ Verdict(k, Clauses) /\ UNCHANGED tvars
TraceNext == TFill \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
