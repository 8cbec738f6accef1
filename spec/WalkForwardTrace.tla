-------------------------- MODULE WalkForwardTrace --------------------------
(* Logged histories of calls on one WalkForward object against WalkForward.   *)
(* r.ops[j]: o = "open" (d), "next" (k, r, tr, te), "close" (k), "query"      *)
(* (v, w); r is "yield", "stop" or the exception.                             *)
EXTENDS WalkForward, TraceKit
VARIABLES k, j, seen, fails     \* seen[m]: the test sets sweep m yielded
tvars == <<vars, k, j, seen, fails>>
Ops == Trace[k].ops
O == Ops[j]
SeqOf(d, S) == SelectSeq([i \in 1..Len(d) |-> i - 1], LAMBDA i : i \in S)
SetOf(q) == {q[i] : i \in 1..Len(q)}
TraceInit == \E i \in 1..NRec : k = i /\ j = 1 /\ Start(Trace[i].s) /\ seen = <<>> /\ fails = <<>>
Log(f) == fails' = fails \o f /\ j' = j + 1 /\ UNCHANGED k

TOpen == O.o = "open" /\ Open(O.d) /\ seen' = Append(seen, <<>>) /\ Log(<<>>)
TClose == O.o = "close" /\ Close(O.k) /\ UNCHANGED seen /\ Log(<<>>)
TQuery == /\ O.o = "query" /\ Query /\ UNCHANGED seen
          /\ Log(Chk(O.v = Announced, "C04 get_n_splits is not the number of splits of the sweep completed last")
                 \o Chk(O.w = ~final, "C04 get_n_splits warns exactly until a sweep is completed"))
Rising(q, f) == \A m \in 1..(Len(q) - 1) : Largest(f[m]) < Smallest(f[m+1])
(* What the test sets of a finished sweep must look like together.            *)
SweepClauses(m) ==
  LET d == sweep[m].d  T == [x \in 1..Len(seen[m]) |-> SetOf(seen[m][x])]
      need == {i \in Idx(d) : d[i+1] > FirstTrainEnd(d)} IN
  IF \E x \in 1..Len(T) : T[x] = {} THEN <<"C04 a test set is empty">>
  ELSE Chk(Rising(T, T), "C04 test sets are not disjoint and in time order")
       \o Chk(UNION {T[x] : x \in 1..Len(T)} = need, "C04 test sets do not cover exactly the samples after the first training window")
IsNext == O.o = "next"
TYield ==
  /\ IsNext /\ Yield(O.k)
  /\ seen' = IF O.r = "yield" THEN [seen EXCEPT ![O.k] = Append(@, O.te)] ELSE seen
  /\ LET w == Ready(sweep[O.k]) IN
     Log(IF O.r # "yield" THEN <<"C04 the sweep ends early or raises although a split remains">>
         ELSE Chk(O.te = SeqOf(w.d, TestSet(w)), "C03 test set is not the window after the training window")
              \o Chk(O.tr = SeqOf(w.d, TrainSet(w)), "C03 training set is not exactly the allowed samples of its window")
              \o LET first == IF O.te = <<>> THEN 0 ELSE Smallest({w.d[b+1] : b \in SetOf(O.te)})
                     bad == {a \in SetOf(O.tr) : O.te # <<>> /\ first - w.d[a+1] <= s.emb * s.u}
                 IN Chk(bad = {}, "C03 training reaches the test window or its embargo")
              \o Chk(Len(O.te) > 0, "C04 a test set is empty"))
TStarve == /\ IsNext /\ Starve(O.k) /\ UNCHANGED seen
  /\ Log(Chk(O.r = "ValueError" \/ (O.r = "yield" /\ O.tr = <<>>), "C03 a split without allowed training samples is not rejected"))
TReject == /\ IsNext /\ Reject(O.k) /\ UNCHANGED seen
  /\ Log(Chk(O.r = "ValueError", "C04 windows that cannot be split do not raise ValueError"))
TStop == /\ IsNext /\ Stop(O.k) /\ UNCHANGED seen
  /\ Log(IF O.r # "stop" THEN <<"C04 the sweep goes on after the last group was tested">> ELSE SweepClauses(O.k))
TAfter == /\ IsNext /\ After(O.k) /\ UNCHANGED seen /\ Log(<<>>)
TEnd == j > Len(Ops) /\ Verdict(k, fails) /\ UNCHANGED tvars
TraceNext == TEnd \/ (j <= Len(Ops) /\ (TOpen \/ TClose \/ TQuery \/ TYield \/ TStarve \/ TReject \/ TStop \/ TAfter))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
