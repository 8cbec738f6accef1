------------------------------ MODULE DenoiseMC -----------------------------
EXTENDS Rat, TLC
CONSTANTS MaxN, MaxEig, Grid, LL
VARIABLES phase, eig, pos, best, bestll, kk, given, orig, steps, hist
RZero == RInt(0)
INSTANCE Denoise WITH Zero <- RZero, NInt <- RInt, Div <- RDiv, Lt <- RLt, Sum <- RSum
vars == <<phase, eig, pos, best, bestll, kk, given, orig, steps, hist>>
Spectra == UNION {{e \in [1..n -> 0..MaxEig] : \A i \in 1..(n - 1) : e[i] >= e[i + 1]} : n \in 1..MaxN}
Init == /\ \E e \in Spectra : orig = [i \in DOMAIN e |-> RInt(e[i])]
        /\ steps \in 1..(MaxN + 1) /\ given \in 0..Len(orig) /\ hist = <<>>
        /\ DStart(orig, steps, given)
Same == UNCHANGED <<given, orig, steps>>
Next == \/ pos < Grid /\ (\E l \in LL : DScan(RInt(l)) /\ hist' = Append(hist, l)) /\ Same
        \/ pos = Grid /\ (\E h \in 1..(2 * MaxEig + 1) : DCut(RQ(h, 2))) /\ Same /\ UNCHANGED hist
        \/ DAverage /\ Same /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Decreasing == \A i \in 1..(Len(eig) - 1) : RLe(eig[i + 1], eig[i])
KeepsSum == RSum(eig) = RSum(Trimmed(orig, steps))
KeepsSignal == SubSeq(eig, 1, kk) = SubSeq(Trimmed(orig, steps), 1, kk)
OneNoise == phase = "done" => \A i, j \in (kk + 1)..Len(eig) : eig[i] = eig[j]
FirstBest == best # 0 => /\ \A i \in 1..(best - 1) : hist[i] < hist[best]
                         /\ \A i \in best..Len(hist) : hist[i] <= hist[best]
Finishes == <>(phase = "done")
(* What was separated as signal is strictly larger than what is averaged, unless given. *)
Separated == phase = "done" /\ given = 0 /\ kk < Len(eig) /\ kk > 0 => RLt(eig[kk + 1], eig[kk])
=============================================================================
