-------------------------------- MODULE GapMC -------------------------------
EXTENDS Gap
CONSTANTS MaxLen, Vals
VARIABLES dummy
IGe(a, b) == a >= b
ISub(a, b) == a - b
Init == /\ \E n \in 1..MaxLen : \E g \in [1..n -> Vals], s \in [1..n -> {0, 1}] : SStart(g, s)
        /\ dummy = 0
Next == Scan /\ UNCHANGED dummy
Spec == Init /\ [][Next]_<<gap, std, cand, chosen, dummy>> /\ WF_<<gap, std, cand, chosen, dummy>>(Next)
InRange == chosen # 0 => chosen \in 2..Top
Smallest == chosen # 0 => \A c \in 2..(chosen - 1) : ~(gap[c - 1] >= gap[c] - std[c])
Chosen == <>(chosen # 0)
=============================================================================
