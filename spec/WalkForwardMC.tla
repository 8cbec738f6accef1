--------------------------- MODULE WalkForwardMC ----------------------------
(* Exhaustive exploration of WalkForward.  hist is the schedule of calls; the *)
(* model emits every complete schedule for replay.  cover[k] are the samples  *)
(* tested so far by sweep k.                                                  *)
EXTENDS WalkForward, TLC, Json, Emit
CONSTANTS MaxN, Incs, Wins, Embs, MaxSweeps, MaxOps, Mode
VARIABLES hist, cover
mvars == <<vars, hist, cover>>
RECURSIVE Acc(_, _)
Acc(inc, k) == IF k = 0 THEN <<0>> ELSE Append(Acc(inc, k-1), Acc(inc, k-1)[k] + inc[k])
Datas == UNION {{Acc(inc, n-1) : inc \in [1..(n-1) -> Incs]} : n \in 1..MaxN}
Init == \E tw \in Wins, sw \in Wins, e \in Embs, r \in BOOLEAN :
          Start([tw |-> tw, sw |-> sw, emb |-> e, u |-> 1, rolling |-> r]) /\ hist = <<>> /\ cover = <<>>
Op(o, k, d) == hist' = Append(hist, [o |-> o, k |-> k, d |-> d])
DoOpen == /\ Len(sweep) < MaxSweeps
          /\ \E d \in Datas : Open(d) /\ Op("open", Len(sweep) + 1, d) /\ cover' = Append(cover, {})
Cover(k) == LET w == sweep'[k] IN cover' = [cover EXCEPT ![k] = @ \cup TestSet(w)]
(* In mode "sweep" only full sweeps are run, so that data can be larger.      *)
DoNext(k) == \/ Yield(k) /\ Op("next", k, <<>>) /\ Cover(k)
             \/ (Reject(k) \/ Starve(k) \/ Stop(k)) /\ Op("next", k, <<>>) /\ UNCHANGED cover
DoClose(k) == Live(k) /\ Close(k) /\ Op("close", k, <<>>) /\ UNCHANGED cover
Quiet == \A k \in 1..Len(sweep) : ~Live(k)
Complete == Len(sweep) = MaxSweeps /\ (Quiet \/ Len(hist) >= MaxOps)
Step == /\ ~Complete
        /\ \/ DoOpen
           \/ \E k \in 1..Len(sweep) : DoNext(k) \/ (Mode = "mixed" /\ DoClose(k))
Report == /\ Complete /\ EmitLine(ToJson([s |-> s, hist |-> hist])) /\ UNCHANGED mvars
MCNext == Step \/ Report
Spec == Init /\ [][MCNext]_mvars
(* A finished sweep has tested exactly the samples after the first training window, each once. *)
Covers == \A k \in 1..Len(sweep) : sweep[k].ph = "done" =>
            cover[k] = {i \in Idx(sweep[k].d) : sweep[k].d[i+1] > FirstTrainEnd(sweep[k].d)}
OnceOnly == [][\A k \in 1..Len(sweep) : (sweep'[k].n # sweep[k].n) => cover[k] \cap TestSet(sweep'[k]) = {}]_mvars
Bounded == \A k \in 1..Len(sweep) : sweep[k].n <= Len(sweep[k].d)
=============================================================================
