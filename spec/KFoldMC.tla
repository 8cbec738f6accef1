------------------------------ MODULE KFoldMC -------------------------------
(* Exhaustive exploration of KFold for small data; every terminal state emits *)
(* its settings and data, to be replayed into the implementation.             *)
EXTENDS KFold, TLC, Json, Emit
CONSTANTS MaxN, Incs, Folds, Gaps
RECURSIVE Acc(_, _)
Acc(inc, k) == IF k = 0 THEN <<0>> ELSE Append(Acc(inc, k-1), Acc(inc, k-1)[k] + inc[k])
Datas == UNION {{Acc(inc, n-1) : inc \in [1..(n-1) -> Incs]} : n \in 1..MaxN}
Init == \E g \in Datas, nf \in Folds, e \in Gaps, p \in Gaps, lf \in BOOLEAN :
          Start([g |-> g, u |-> 1, nf |-> nf, emb |-> e, pur |-> p, lf |-> lf])
Report == /\ phase \in {"done", "error"}
          /\ EmitLine(ToJson([cfg |-> c, n |-> Len(out), end |-> phase]))
          /\ UNCHANGED vars
MCNext == Next \/ Report
Spec == Init /\ [][MCNext]_vars /\ WF_vars(Next)
Terminates == <>(phase \in {"done", "error"})
=============================================================================
