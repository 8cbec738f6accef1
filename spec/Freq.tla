--------------------------------- MODULE Freq -------------------------------
(* Recognising the frequency of a date index, as a machine that reads the     *)
(* dates one by one and keeps counts.  At most two dates (or steps) may be    *)
(* out of place; business days allow a tenth of other steps.                  *)
EXTENDS Cal
VARIABLES n, last, on, step1, step13, step7
fqvars == <<n, last, on, step1, step13, step7>>
Grids == <<"YE", "YS", "QE", "QS", "ME", "MS">>         \* coarsest first
FqStart == n = 0 /\ last = 0 /\ on = [i \in 1..6 |-> 0] /\ step1 = 0 /\ step13 = 0 /\ step7 = 0
Read(d) ==
  /\ n' = n + 1 /\ last' = d
  /\ on' = [i \in 1..6 |-> on[i] + (IF On([k |-> Grids[i], a |-> 0], d) THEN 1 ELSE 0)]
  /\ step1' = step1 + (IF n > 0 /\ d - last = 1 THEN 1 ELSE 0)
  /\ step13' = step13 + (IF n > 0 /\ d - last \in {1, 3} THEN 1 ELSE 0)
  /\ step7' = step7 + (IF n > 0 /\ d - last = 7 THEN 1 ELSE 0)
Steps == n - 1
Fits(count, all) == count >= 2 /\ all - count <= 2
Class ==
  IF n < 3 THEN "none"
  ELSE IF \E i \in 1..6 : Fits(on[i], n) THEN Grids[CHOOSE i \in 1..6 : Fits(on[i], n) /\ \A j \in 1..(i - 1) : ~Fits(on[j], n)]
  ELSE IF Fits(step1, Steps) THEN "D"
  ELSE IF 10 * step13 >= 9 * Steps THEN "B"
  ELSE IF Fits(step7, Steps) THEN "W"
  ELSE "none"
(* Lengths from which on a regular index is recognised, whatever its start. *)
Enough(k) == CASE k = "B" -> 16 [] k \in {"ME", "MS", "QE", "QS"} -> 5 [] k = "W" -> 3 [] OTHER -> 3
=============================================================================
