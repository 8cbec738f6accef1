------------------------------ MODULE DistMatMC -----------------------------
(* For every symmetric pair function over items named by any permutation, the *)
(* finished matrix holds every pair in both places, so permuting the items    *)
(* permutes the matrix and dropping items gives the submatrix.                *)
EXTENDS DistMat, FiniteSets
CONSTANTS Items, Vals
VARIABLES fn, names
vars == <<n, dm, ij, fn, names>>
P(a, b) == fn[{names[a], names[b]}]
Pairs == {s \in SUBSET Items : Cardinality(s) = 2}
Init == /\ fn \in [Pairs -> Vals]
        /\ \E m \in 2..Cardinality(Items) : names \in {s \in [1..m -> Items] : \A a, b \in 1..m : a # b => s[a] # s[b]} /\ DStart(m, 0)
Next == Fill(P) /\ UNCHANGED <<fn, names>>
Spec == Init /\ [][Next]_vars
Sound == \A a, b \in 1..n : a # b => dm[a][b] \in {0, fn[{names[a], names[b]}]} /\ dm[a][b] = dm[b][a]
Complete == Filled => \A a, b \in 1..n : dm[a][b] = IF a = b THEN 0 ELSE fn[{names[a], names[b]}]
=============================================================================
