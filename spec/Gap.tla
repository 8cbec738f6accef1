--------------------------------- MODULE Gap --------------------------------
(* Choosing the number of clusters by scanning candidates 2, 3, ... .  A      *)
(* candidate is accepted when its gap is at least the next gap less its       *)
(* spread; the largest candidate is what remains.                             *)
EXTENDS Integers, Sequences
VARIABLES gap, std,      \* of the candidates 2..max (sequences from 1)
          cand, chosen
CONSTANTS Ge(_, _), Sub(_, _)
SStart(g, s) == gap = g /\ std = s /\ cand = 2 /\ chosen = 0
Top == Len(gap) + 1
Accept(c) == c = Top \/ Ge(gap[c - 1], Sub(gap[c], std[c]))
Scan == /\ chosen = 0
        /\ IF Accept(cand) THEN chosen' = cand /\ UNCHANGED cand ELSE cand' = cand + 1 /\ UNCHANGED chosen
        /\ UNCHANGED <<gap, std>>
=============================================================================
