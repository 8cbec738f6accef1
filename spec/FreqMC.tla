------------------------------- MODULE FreqMC -------------------------------
(* Every regular index starting in the given years. *)
EXTENDS Freq, TLC, Json, Emit
CONSTANTS FirstYear, LastYear, MaxLen
VARIABLES f, start
vars == <<n, last, on, step1, step13, step7, f, start>>
Days(y1, y2) == DayNo(y1, 1, 1)..(DayNo(y2 + 1, 1, 1) - 1)
Init == /\ FqStart
        /\ \/ f \in {[k |-> x, a |-> 0] : x \in {"D", "B"}} /\ start \in Days(FirstYear, LastYear)
           \/ f \in {[k |-> "W", a |-> x] : x \in 0..6} /\ start \in {7 * w + 4 : w \in (DayNo(FirstYear, 1, 1) \div 7)..(DayNo(LastYear, 12, 31) \div 7)}
           \/ f \in {[k |-> x, a |-> 0] : x \in {"ME", "MS", "QE", "QS", "YE", "YS"}} /\ start \in {MonthStart(y, m) : y \in FirstYear..LastYear, m \in 1..12}
Len0 == IF f.k \in {"D", "B"} THEN MaxLen ELSE MaxLen - 4
Next == n < Len0 /\ Read(IF n = 0 THEN FirstFrom(f, start) ELSE NextOn(f, last)) /\ UNCHANGED <<f, start>>
        /\ (n + 1 < Len0 \/ EmitLine(ToJson([k |-> f.k, a |-> f.a, s |-> start, n |-> n + 1])))
Spec == Init /\ [][Next]_vars
Recognised == n >= Enough(f.k) => Class = f.k
TooShort == n < 3 => Class = "none"
(* Never mistaken for something without any of its dates, at any length. *)
NeverNone == n >= 3 => Class # "none"
=============================================================================
