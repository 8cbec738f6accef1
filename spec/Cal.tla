--------------------------------- MODULE Cal --------------------------------
(* The Gregorian calendar on day numbers (0 = 1970-01-01, a Thursday), and    *)
(* the regular frequencies of date indexes.  A frequency is [k, a]: a code    *)
(* and its anchor (W: weekday, Monday = 0; nD: number of days), k = "none"    *)
(* if there is none.                                                          *)
EXTENDS Integers, Sequences
Weekday(d) == (d + 3) % 7
Civil(d) ==
  LET z == d + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400
  IN [y |-> IF m <= 2 THEN y + 1 ELSE y, m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
DayNo(yy, m, d) ==
  LET y == IF m <= 2 THEN yy - 1 ELSE yy
      era == y \div 400
      yoe == y % 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
MonthStart(y, m) == DayNo(y, m, 1)
NextMonthStart(d) == LET c == Civil(d) IN IF c.m = 12 THEN DayNo(c.y + 1, 1, 1) ELSE DayNo(c.y, c.m + 1, 1)
MonthEnd(d) == NextMonthStart(d) - 1

(* Is day d on the frequency?  (Not for k = "nD", which counts from its start.) *)
On(f, d) ==
  LET c == Civil(d)  start == (c.d = 1)  end == (MonthEnd(d) = d) IN
  CASE f.k = "D"  -> TRUE
    [] f.k = "nD" -> TRUE
    [] f.k = "B"  -> Weekday(d) < 5
    [] f.k = "W"  -> Weekday(d) = f.a
    [] f.k = "ME" -> end
    [] f.k = "MS" -> start
    [] f.k = "QE" -> end /\ c.m % 3 = 0
    [] f.k = "QS" -> start /\ c.m % 3 = 1
    [] f.k = "YE" -> end /\ c.m = 12
    [] f.k = "YS" -> start /\ c.m = 1
RECURSIVE FirstFrom(_, _)
FirstFrom(f, d) ==
  IF On(f, d) THEN d
  ELSE IF f.k \in {"ME", "QE", "YE"} THEN FirstFrom(f, IF MonthEnd(d) > d THEN MonthEnd(d) ELSE MonthEnd(d + 1))
  ELSE IF f.k \in {"MS", "QS", "YS"} THEN FirstFrom(f, NextMonthStart(d))
  ELSE FirstFrom(f, d + 1)
NextOn(f, d) == IF f.k = "nD" THEN d + f.a ELSE FirstFrom(f, d + 1)
RECURSIVE Range(_, _, _)
(* The first n days of the frequency from day d on. *)
Range(f, d, n) == IF n = 0 THEN <<>>
                  ELSE IF n = 1 THEN <<FirstFrom(f, d)>>
                  ELSE LET r == Range(f, d, n - 1) IN Append(r, NextOn(f, r[n-1]))

(* Duration in years as <<numerator, denominator>>; <<>> if unknown. *)
Duration(k) == CASE k = "D" -> <<1, 365>> [] k = "B" -> <<1, 252>> [] k = "W" -> <<7, 365>>
                 [] k \in {"M", "ME", "MS"} -> <<1, 12>> [] k \in {"Q", "QE", "QS"} -> <<1, 4>>
                 [] k \in {"Y", "YE", "YS"} -> <<1, 1>> [] OTHER -> <<>>
=============================================================================
