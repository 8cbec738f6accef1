------------------------------- MODULE DistMat ------------------------------
(* A distance matrix is filled pair by pair, i < j, each pair written twice.  *)
EXTENDS Integers, Sequences
VARIABLES n, dm, ij
DStart(m, diagonal) == n = m /\ dm = [a \in 1..m |-> [b \in 1..m |-> diagonal]] /\ ij = <<1, 2>>
NextPair == IF ij[2] < n THEN <<ij[1], ij[2] + 1>> ELSE <<ij[1] + 1, ij[1] + 2>>
Fill(Pair(_, _)) ==
        /\ ij[1] < n
        /\ LET v == Pair(ij[1], ij[2]) IN dm' = [dm EXCEPT ![ij[1]][ij[2]] = v, ![ij[2]][ij[1]] = v]
        /\ ij' = NextPair /\ UNCHANGED n
Filled == ij[1] >= n
=============================================================================
