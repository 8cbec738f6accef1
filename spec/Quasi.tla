-------------------------------- MODULE Quasi -------------------------------
(* QuasiRandom, one path.  The machine consumes the indicator of the base     *)
(* path row by row: row 1 has no signal, row t+1 has the indicator of row t,  *)
(* where undefined values count as zero.  The sum of the signals, times a     *)
(* constant of the path, is added to the base path.                           *)
EXTENDS Integers, Sequences
CONSTANTS Zero, Plus(_, _), Undefined(_)
VARIABLES ind,    \* indicator of the base path without its last row
          sig,    \* signal of the rows handled so far
          cum     \* running sum of the signal
Start(x) == ind = x /\ sig = <<Zero>> /\ cum = <<Zero>>
Clean(v) == IF Undefined(v) THEN Zero ELSE v
Lag == /\ Len(sig) <= Len(ind)
       /\ LET v == Clean(ind[Len(sig)]) IN sig' = Append(sig, v) /\ cum' = Append(cum, Plus(cum[Len(cum)], v))
       /\ UNCHANGED ind
Finished == Len(sig) = Len(ind) + 1
=============================================================================
