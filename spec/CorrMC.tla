------------------------------- MODULE CorrMC -------------------------------
(* All 2x2 and 3x3 matrices over a grid of correlations (twelfths), valid and *)
(* not; the conversion runs entry by entry.                                   *)
EXTENDS CorrDist, Json, Emit
CONSTANTS Grid0, Diag, Sizes      \* Grid0: correlations in twelfths, plus 12
Grid == {g - 12 : g \in Grid0}
VARIABLES m, kind, at, d
vars == <<m, kind, at, d>>
Q(c) == FQ(c, 12)
Init == /\ kind \in Kinds /\ at = 0 /\ d = <<>>
        /\ \E n \in Sizes : \E up \in [{<<i, j>> \in (1..n) \X (1..n) : i < j} -> Grid], low \in Grid, g \in Diag :
             m = [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN (IF i = n THEN g ELSE 12)
                                                 ELSE IF i = n /\ j = 1 THEN low
                                                 ELSE IF i < j THEN up[<<i, j>>] ELSE up[<<j, i>>]]]
N == Len(m)
Row == /\ at < N
       /\ d' = Append(d, [j \in 1..N |-> IF j = at + 1 THEN F0 ELSE Conv(kind, Q(m[at+1][j]))])
       /\ at' = at + 1 /\ UNCHANGED <<m, kind>>
Report == at = N /\ EmitLine(ToJson([kind |-> kind, m |-> m])) /\ UNCHANGED vars
Next == Row \/ Report
Spec == Init /\ [][Next]_vars
Within == \A i \in 1..at : \A j \in 1..N : FLe(F0, d[i][j]) /\ FLe(d[i][j], F1)
ZeroDiagonal == \A i \in 1..at : d[i][i] = F0
Sym == \A i, j \in 1..at : m[i][j] = m[j][i] => d[i][j] = d[j][i]
(* Zero exactly at perfect correlation (either sign except for the angular distance), one at its opposite. *)
Ends == \A i \in 1..at : \A j \in 1..N : i # j =>
   /\ FEq(d[i][j], F0) = (m[i][j] = 12 \/ (kind # "angular" /\ m[i][j] = -12))
   /\ FEq(d[i][j], F1) = (IF kind = "angular" THEN m[i][j] = -12 ELSE m[i][j] = 0)
=============================================================================
