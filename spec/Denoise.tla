------------------------------- MODULE Denoise ------------------------------
(* Denoising a spectrum: eigenvalues beyond the number of time steps are      *)
(* zero; without a given number of factors, a scan over a grid of noise       *)
(* variances finds the likeliest, whose upper edge separates signal from      *)
(* noise; the noise values are averaged.                                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Zero, NInt(_), Div(_, _), Lt(_, _), Sum(_)
VARIABLES phase, eig, pos, best, bestll, kk
dvars == <<phase, eig, pos, best, bestll, kk>>
Trimmed(e, t) == TLCEval([i \in 1..Len(e) |-> IF i > t THEN Zero ELSE e[i]])
(* The eigenvalues the distribution is fitted to. *)
Fitted(e, t) == SubSeq(e, 1, IF t < Len(e) THEN t ELSE Len(e))
DStart(e, t, given) ==
  /\ eig = Trimmed(e, t) /\ pos = 0 /\ best = 0 /\ bestll = Zero
  /\ IF given = 0 THEN phase = "scan" /\ kk = 0 ELSE phase = "average" /\ kk = given
(* One grid point with its log-likelihood; the first maximiser stays. *)
DScan(ll) ==
  /\ phase = "scan" /\ pos' = pos + 1
  /\ IF best = 0 \/ Lt(bestll, ll) THEN best' = pos + 1 /\ bestll' = ll ELSE UNCHANGED <<best, bestll>>
  /\ UNCHANGED <<phase, eig, kk>>
(* The scan is over: everything at or above the edge is signal. *)
DCut(edge) ==
  /\ phase = "scan" /\ phase' = "average"
  /\ kk' = Len(SelectSeq(eig, LAMBDA v : ~Lt(v, edge)))
  /\ UNCHANGED <<eig, pos, best, bestll>>
Averaged(e, k) ==
  IF k >= Len(e) THEN e
  ELSE LET m == Div(Sum(SubSeq(e, k + 1, Len(e))), NInt(Len(e) - k)) IN TLCEval([i \in 1..Len(e) |-> IF i <= k THEN e[i] ELSE m])
DAverage ==
  /\ phase = "average" /\ phase' = "done" /\ eig' = Averaged(eig, kk)
  /\ UNCHANGED <<pos, best, bestll, kk>>
=============================================================================
