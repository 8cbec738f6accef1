----------------------------- MODULE DivergeTrace ---------------------------
(* Logged divergences of p and q with eigendecompositions as witnesses, which *)
(* are checked before they are used.                                          *)
EXTENDS Diverge, TraceKit
VARIABLES k
tvars == <<k>>
R == Trace[k]
E(s) == FParse(s)
TraceInit == k \in 1..NRec
Tol == E("1e-8")
Clauses ==
  IF R.pd = "no" THEN Chk(R.ld.r # "ok", "C22 log-det divergence accepts a matrix that is not positive definite") \o Chk(R.vn.r # "ok", "C22 von Neumann divergence accepts a matrix that is not positive definite")
  ELSE LET p == FParseMat(R.p)  q == FParseMat(R.q)  s == FParseSeq(R.s)  v == FParseMat(R.v)  t == FParseSeq(R.t)  w == FParseMat(R.w)
           witness == IsEigen(p, s, v) /\ IsEigen(q, t, w)
           sc == FAdd(F1, FAdd(FSum(s), FSum(t)))
           ld == LogDetDiv(p, q)  vn == VonNeumann(s, v, t, w)
       IN (IF R.ld.r # "ok" THEN <<"C22 log-det divergence raises">> ELSE
             Chk(FClose(E(R.ld.o), ld, Tol, Tol), "C22 log-det divergence differs from its formula")
             \o Chk(FLe(E("-1e-8"), E(R.ld.o)), "C22 log-det divergence is negative")
             \o Chk(~R.eq \/ FClose(E(R.ld.o), F0, F0, E("1e-8")), "C22 log-det divergence of equal matrices is not zero")
             \o Chk(\A i \in 1..Len(R.ldinv) : FClose(E(R.ldinv[i]), E(R.ld.o), E("1e-7"), E("1e-7")), "C22 log-det divergence changes under scaling or congruence"))
          \o (IF R.vn.r # "ok" THEN <<"C22 von Neumann divergence raises">> ELSE
             (IF witness THEN Chk(FClose(E(R.vn.o), vn, Tol, FMul(Tol, sc)), "C22 von Neumann divergence differs from its formula") ELSE <<"witness">>)
             \o Chk(FLe(FMul(E("-1e-9"), sc), E(R.vn.o)), "C22 von Neumann divergence is negative")
             \o Chk(~R.eq \/ FClose(E(R.vn.o), F0, F0, FMul(E("1e-9"), sc)), "C22 von Neumann divergence of equal matrices is not zero")
             \o Chk(\A i \in 1..Len(R.vninv) : FClose(E(R.vninv[i]), E(R.vn.o), E("1e-7"), FMul(E("1e-7"), sc)), "C22 von Neumann divergence changes under rotation"))
TraceNext == Verdict(k, Clauses) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
