------------------------------- MODULE QuasiMC ------------------------------
(* Integer paths and a causal indicator: the signal of a row depends on       *)
(* earlier rows of the base path only.                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, Vals
VARIABLES ind, sig, cum, base
Undef == 99
Add(a, b) == a + b
IsUndef(v) == v = Undef
INSTANCE Quasi WITH Zero <- 0, Plus <- Add, Undefined <- IsUndef
(* A causal indicator: change over two rows, undefined where there are none.  *)
Ind(b) == [i \in 1..(Len(b) - 1) |-> IF i < 3 THEN Undef ELSE b[i] - b[i-2]]
Init == \E n \in 2..MaxN : \E b \in [1..n -> Vals] : base = b /\ Start(Ind(b))
Next == Lag /\ UNCHANGED base
Spec == Init /\ [][Next]_<<ind, sig, cum, base>>
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
StartsAtX0 == cum[1] = 0
RunningSum == \A i \in 1..Len(cum) : cum[i] = SumTo(sig, i)
(* Changing base rows from t on changes no signal up to t. *)
Causal == \A t \in 1..Len(sig) : \A v \in Vals :
   LET b2 == [i \in 1..Len(base) |-> IF i >= t THEN v ELSE base[i]]  i2 == Ind(b2)
   IN t > 1 => (IF IsUndef(i2[t-1]) THEN 0 ELSE i2[t-1]) = sig[t]
=============================================================================
