------------------------------- MODULE SimTrace -----------------------------
(* Sessions of calls on simulation models against SimLife and SimLaw.         *)
(* State: the models of the session (parameters as observed, what they        *)
(* remember of their last fit as specified), and the samples drawn so far.    *)
EXTENDS SimLaw, TraceKit
VARIABLES k, j, mod, past, lawOK, fails
tvars == <<k, j, mod, past, lawOK, fails>>
Ops == Trace[k].ops
O == Ops[j]
TraceInit == /\ \E i \in 1..NRec : k = i
             /\ j = 1 /\ mod = <<>> /\ past = <<>> /\ lawOK = TRUE /\ fails = <<>>
Log(f) == fails' = fails \o f /\ j' = j + 1 /\ UNCHANGED k
Params(o) == [kind |-> o.kind, p1 |-> FParseSeq(o.p1), p2 |-> FParseSeq(o.p2), vol |-> FParseSeq(o.vol), cor |-> FParseMat(o.cor)]
Global(o) == Chk(o.gs, "C07 a call changes the state of the global random generators")
E(s) == FParse(s)

(* ---- a new model ---- *)
TClone == /\ O.o = "clone"
          /\ mod' = Append(mod, mod[O.of])
          /\ UNCHANGED <<past, lawOK>>
          /\ Log(Global(O) \o Chk(Params(O) = mod[O.of].par, "C10 a copy of a model has other parameters"))
TNew == /\ O.o = "new"
        /\ mod' = Append(mod, [par |-> Params(O), fit |-> NotFitted])
        /\ UNCHANGED <<past, lawOK>> /\ Log(Global(O))

(* ---- fit ---- *)
VClose(a, b) == FVClose(a, b, E("1e-7"), E("1e-9"))
(* Each column fitted by itself gets the parameters it has among the others. *)
Alone(o, p) ==
  LET ok(c, v, w) == FVClose(<<IF Len(w) = 0 THEN F0 ELSE w[c]>>, IF Len(w) = 0 THEN <<F0>> ELSE v, E("1e-6"), E("1e-8"))
      q(c) == Params([o.alone[c] EXCEPT !.r = "ok"] @@ [kind |-> o.kind])
  IN Chk(\A c \in 1..Len(o.alone) : o.alone[c].r = "ok" => LET w == q(c) IN ok(c, w.vol, p.vol) /\ ok(c, w.p1, p.p1) /\ ok(c, w.p2, p.p2),
         "C08 the parameters of a column depend on other columns")
FitClauses(m, o) ==
  IF o.r # "ok" THEN <<"C08 fit raises for data that can be fitted">> ELSE
  LET p == Params(o)  x == FParseMat(o.x)  n == Len(x[1])  dt == DtValue(DataDt(o.dt, o.idx))
      e == TLCEval([c \in 1..n |-> FitCol(o.kind, Col(x, c), dt)])
      ou == o.kind = "OU"
      (* least squares is only compared where it determines the parameters well *)
      good == ~ou \/ \A c \in 1..n : FLt(E("0.02"), e[c].slope) /\ FLt(E("1e-4"), FAbs(FSub(F1, e[c].slope))) /\ FLt(e[c].slope, E("50"))
      tol == IF ou THEN E("1e-5") ELSE E("1e-8")
      floor == IF ou THEN E("1e-7") ELSE E("1e-10")
      cl(a, b) == FVClose(a, b, tol, floor)
  IN IF Len(p.p1) # n \/ Len(p.vol) # n \/ (ou /\ Len(p.p2) # n) THEN <<"C08 one parameter per column is expected">>
     ELSE Alone(o, p) \o
          (IF ~good THEN <<>> ELSE
          Chk(cl(p.vol, [c \in 1..n |-> e[c].vol]), "C08 volatility is not the documented estimator of its column")
          \o Chk(cl(p.p1, [c \in 1..n |-> e[c].p1]), "C08 drift or mean is not the documented estimator of its column")
          \o Chk(~ou \/ cl(p.p2, [c \in 1..n |-> e[c].p2]), "C08 mean reversion rate is not the documented estimator of its column")
          \o (IF n = 1 THEN Chk(p.cor = <<>>, "C08 a single column has no correlations")
              ELSE Chk(MatClose(p.cor, CorMatrix([c \in 1..n |-> e[c].res]), E("1e-7"), E("1e-8")), "C08 correlations are not those of the one-step changes")))
TFit == /\ O.o = "fit"
        /\ mod' = [mod EXCEPT ![O.m] = [par |-> Params(O), fit |-> FitState(O.x, O.dt, O.cont, O.cols, O.idx)]]
        /\ UNCHANGED <<past, lawOK>>
        /\ Log(Global(O) \o FitClauses(mod[O.m], O))

(* ---- nll, aic, bic ---- *)
(* Transition laws that double precision can tell from a singular one. *)
Tame(m, o) == LET kk == Consts(m.par, DtValue(DataDt(o.dt, o.idx)))  c == [i \in 1..Len(kk) |-> kk[i].c]
              IN FLt(FVMax(c), FMul(E("1e5"), FVMin(c))) /\ FLt(FVMax([i \in 1..Len(kk) |-> kk[i].a]), E("1e3"))
ScoreClauses(m, o) ==
  IF ~Tame(m, o) THEN <<>> ELSE
  IF o.r # "ok" THEN <<"C09 a score raises for data that can be scored">> ELSE
  LET x == FParseMat(o.x)  dt == DtValue(DataDt(o.dt, o.idx))  nll == Nll(m.par, x, dt)
      two == FMul(F2, nll)  kk == FInt(NParam(m.par))
      want == CASE o.what = "nll" -> nll
                [] o.what = "aic" -> FAdd(FMul(F2, kk), two)
                [] o.what = "bic" -> FAdd(FMul(FLog(FInt(Len(x))), kk), two)
  IN Chk(FClose(E(o.v), want, E("1e-7"), E("1e-7")),
         CASE o.what = "nll" -> "C09 nll is not the negative log-likelihood of the transition law"
           [] o.what = "aic" -> "C09 aic is not 2k + 2 nll"
           [] o.what = "bic" -> "C09 bic is not k ln(n) + 2 nll")
TScore == /\ O.o = "score" /\ UNCHANGED <<mod, past, lawOK>>
          /\ Log(Global(O) \o ScoreClauses(mod[O.m], O))

(* ---- path_sample ---- *)
Default(kind) == IF kind = "GBM" THEN <<"100.0">> ELSE <<"0.0">>
X0(m, o) == FParseSeq(EffX0(m.fit, o.a, Default(m.par.kind)))
LayoutClauses(m, o) ==
  LET a == o.a  f == m.fit  nv == NVar(m.par)  r == o.out IN
  Chk(Len(r.v) = Rows(a), "C06 wrong number of rows")
  \o Chk(\A i \in 1..Len(r.v) : Len(r.v[i]) = nv * a.paths, "C06 wrong number of columns")
  \o Chk(r.cont = Container(f, a, nv), "C06 wrong container")
  \o (IF WantPandas(f, a) /\ r.cont # "ndarray" THEN Chk(r.cols = Names(f, a, nv), "C06 wrong column names") ELSE <<>>)
  \o (IF WantDates(f, a) /\ r.cont # "ndarray"
      THEN Chk(r.lab = Labels(f, a) /\ r.tod = <<EffStart(f, a).tod>>,
               IF a.ls # <<>> /\ a.lf.k # "none" THEN "C06 wrong date labels" ELSE "C10 date labels are not those of the most recent fit")
           \o Chk(r.iname = f.idx.name, "C10 index name is not that of the most recent fit")
      ELSE Chk(~WantPandas(f, a) \/ r.lab = <<>>, "C06 date labels where none were asked for"))
ShapeOK(m, o) == Len(o.out.v) = Rows(o.a) /\ \A i \in 1..Len(o.out.v) : Len(o.out.v[i]) = NVar(m.par) * o.a.paths
(* Rows that break the law, given the shocks z. *)
LawHolds(m, o) ==
  LET a == o.a  nv == NVar(m.par)  dt == DtValue(EffDt(m.fit, a))
      x0 == X0(m, o)
      row0 == [c \in 1..(nv * a.paths) |-> At(x0, VarOf(c, nv))]
      v == FParseMat(o.out.v)
      full == TLCEval(IF a.inc THEN v ELSE <<row0>> \o v)
      z == FParseMat(o.z)
      kk == Consts(m.par, dt)  l == Root(m.par)
      hat == TLCEval([i \in 1..Len(full) |-> [c \in 1..(nv * a.paths) |-> Hat(m.par, full[i][c])]])
      scale == TLCEval([c \in 1..(nv * a.paths) |->
                 FMul(E("1e-9"), FAdd(FAdd(FVMax(FVAbs([i \in 1..Len(hat) |-> hat[i][c]])), FAbs(kk[VarOf(c, nv)].b)), FMul(FInt(10), FAbs(kk[VarOf(c, nv)].c))))])
      okstep(i, p) == LET e == Shock(l, SubSeq(z[i], (p - 1) * nv + 1, p * nv)) IN
                      \A u \in 1..nv : LET c == ColOf(p, u, nv) IN
                        FClose(hat[i+1][c], StepHat(kk[u], hat[i][c], e[u]), F0, scale[c])
  IN [first |-> ~a.inc \/ FVClose(v[1], row0, E("1e-12"), E("1e-300")),
      steps |-> \A i \in 1..a.steps, p \in 1..a.paths : okstep(i, p),
      positive |-> m.par.kind # "GBM" \/ \A i \in 1..Len(v) : FLt(F0, FVMin(v[i]))]
LawClauses(m, o) ==
  IF o.z = <<>> THEN <<>> ELSE
  LET h == TLCEval(LawHolds(m, o))  ex == o.a.x0k = "value"  ed == o.a.dt # <<>> IN
  Chk(h.positive, "C05 a geometric path is not positive")
  \o (IF h.first THEN <<>> ELSE IF ex THEN <<"C05 a path does not start at x0">>
      ELSE IF lawOK THEN <<"C10 the default start is not that of the most recent fit">> ELSE <<>>)
  \o (IF h.steps THEN <<>> ELSE IF (ex /\ ed) \/ (ed /\ h.first /\ o.a.inc) THEN <<"C05 a step does not follow the transition law with the shocks of its seed">>
      ELSE IF lawOK THEN <<"C10 a sample with default arguments does not use those of the most recent fit">> ELSE <<>>)
Key(m, o) == [par |-> m.par, x0 |-> X0(m, o), dt |-> DtValue(EffDt(m.fit, o.a)), steps |-> o.a.steps, paths |-> o.a.paths]
Body(o) == IF o.a.inc THEN Tail(o.out.v) ELSE o.out.v
Random(m, o) == o.a.steps >= 1 /\ \A i \in 1..Len(m.par.vol) : FLt(F0, m.par.vol[i])
PastClauses(m, o, key) ==
  LET hits == SelectSeq(past, LAMBDA q : q.key = key)
      same == SelectSeq(hits, LAMBDA q : o.a.seed # "none" /\ Ops[q.i].a.seed = o.a.seed)
      other == SelectSeq(hits, LAMBDA q : o.a.seed = "none" \/ Ops[q.i].a.seed # o.a.seed)
  IN Chk(\A q \in 1..Len(same) : Body(Ops[same[q].i]) = Body(o), "C07 the same seed and arguments give different values")
     \o Chk(\A q \in 1..Len(other) : ~Random(m, o) \/ Body(Ops[other[q].i]) # Body(o), "C07 different seeds, or no seed, give the same shocks")
SampleClauses(m, o) ==
  IF Rejects(m.fit, o.a) THEN Chk(o.r = "ValueError", "C10 an unfitted model accepts first or last")
  ELSE IF o.r # "ok" THEN <<"C06 path_sample raises for valid arguments", "C05 path_sample raises for valid arguments", "C10 path_sample raises for valid arguments">>
  ELSE LayoutClauses(m, o)
       \o (IF ShapeOK(m, o) THEN LawClauses(m, o) \o PastClauses(m, o, Key(m, o)) ELSE <<>>)
TSample == /\ O.o = "sample" /\ UNCHANGED mod
           /\ LET m == mod[O.m]  f == SampleClauses(m, O)  fine == O.r = "ok" /\ ~Rejects(m.fit, O.a) /\ ShapeOK(m, O) IN
              /\ past' = IF fine THEN Append(past, [i |-> j, key |-> Key(m, O)]) ELSE past
              /\ lawOK' = (lawOK /\ \A i \in 1..Len(f) : f[i] # "C05 a step does not follow the transition law with the shocks of its seed")
              /\ Log(Global(O) \o f)

(* ---- large samples of shocks: standard normal and independent ---- *)
NoiseClauses(o) ==
  LET z == FParseMat(o.z)  n == Len(z)  w == Len(z[1])
      col == TLCEval([c \in 1..w |-> Col(z, c)])
      rn == FSqrt(FInt(n))
      small(x, t) == FLe(FAbs(x), FDiv(E(t), rn))
      lag(s, h) == SubSeq(s, 1 + h, n - 2 + h)
      all == FSort([i \in 1..(n * w) |-> z[((i - 1) \div w) + 1][((i - 1) % w) + 1]])
      N == n * w
      ks == FVMax([i \in 1..N |-> FMax(FAbs(FSub(FNCdf(all[i]), FQ(i, N))), FAbs(FSub(FNCdf(all[i]), FQ(i - 1, N))))])
      h == n \div 2
      abs == FSort(FVAbs(all))
  IN Chk(\A i \in 2..N : abs[i] # abs[i-1], "C05 shocks are repeated")
     \o Chk(FLe(ks, FDiv(E("3"), FSqrt(FInt(N)))), "C05 shocks are not normal")
     \o IF w > 12 \/ n < 400 THEN <<>> ELSE
     Chk(\A c \in 1..w : small(FMean(col[c]), "6") /\ small(FSub(FVar(col[c], 0), F1), "8.5"), "C05 shocks do not have mean 0 and variance 1")
     \o Chk(\A c, d \in 1..w : c = d \/ small(FCor(col[c], col[d]), "6"), "C05 shocks of paths or variates are correlated")
     \o Chk(\A c, d \in 1..w, g \in 1..2 : small(FCor(lag(col[c], 0), lag(col[d], g)), "6"), "C05 shocks of different steps are correlated")
     \o Chk(\A c, d \in 1..w : small(FCor(SubSeq(col[c], 1, h), SubSeq(col[d], h + 1, 2 * h)), "8.5"), "C05 shocks are repeated")
TNoise == /\ O.o = "noise" /\ UNCHANGED <<mod, past, lawOK>> /\ Log(NoiseClauses(O))

TEnd == j > Len(Ops) /\ Verdict(k, fails) /\ UNCHANGED tvars
TraceNext == TEnd \/ (j <= Len(Ops) /\ (TNew \/ TClone \/ TFit \/ TScore \/ TSample \/ TNoise))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
