-------------------------------- MODULE Info --------------------------------
(* Histogram information measures.  Two variables of equal length are read    *)
(* pair by pair and counted into equal-width bins between their extremes; the *)
(* entropies and what is made of them are functions of the counts.            *)
EXTENDS Hist
VARIABLES x, y, nb,        \* data and number of bins
          i,               \* pairs read so far
          hx, hy, hxy      \* counts; hxy is a sequence of rows
Zeros(n) == [j \in 1..n |-> 0]
Start(a, b, n) == /\ x = a /\ y = b /\ nb = n /\ i = 0
                  /\ hx = Zeros(n) /\ hy = Zeros(n) /\ hxy = [j \in 1..n |-> Zeros(n)]
Count == /\ i < Len(x)
         /\ LET a == Bin(x, nb, x[i+1])  b == Bin(y, nb, y[i+1]) IN
            /\ hx' = [hx EXCEPT ![a] = @ + 1]
            /\ hy' = [hy EXCEPT ![b] = @ + 1]
            /\ hxy' = [hxy EXCEPT ![a][b] = @ + 1]
         /\ i' = i + 1 /\ UNCHANGED <<x, y, nb>>
Counted == i = Len(x)
Hx == Ent(hx, Len(x))
Hy == Ent(hy, Len(x))
Hxy == Ent(Flat(hxy), Len(x))
MI == MIof(Hx, Hy, Hxy)
NMI == NMIof(Hx, Hy, Hxy)
VI == VIof(Hx, Hy, Hxy)
NVI == NVIof(Hx, Hy, Hxy)
KL == FSum(TLCEval([j \in 1..nb |-> IF hx[j] = 0 \/ hy[j] = 0 THEN F0 ELSE FMul(FQ(hx[j], Len(x)), FLog(FQ(hx[j], hy[j])))]))
=============================================================================
