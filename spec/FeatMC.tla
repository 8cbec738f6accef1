------------------------------- MODULE FeatMC -------------------------------
(* Every series of at most MaxN values, every window: definitions and bounds  *)
(* over exact rationals.  Every complete run is emitted for replay.           *)
EXTENDS Rat, FiniteSets, TLC, Json, Emit
CONSTANTS MaxN, Levels, Windows, Feats
VARIABLES f, p, bars, aux, outs
INSTANCE Feat WITH NInt <- RInt, NQ <- RQ, NaN <- RNaN, IsNaN <- RIsNaN, Add <- RAdd, Sub <- RSub, Mul <- RMul, Div <- RDiv,
  Lt <- RLt, Eq <- REq, Sum <- RSum, Dot <- RDot, VMax <- RVMax, VMin <- RVMin, IPow <- RIPow,
  Sqrt <- ROpaque, Log <- ROpaque, Exp <- ROpaque, TCdf <- ROpaque, Pi <- RNaN
vars == <<f, p, bars, aux, outs>>
Series(n) == [1..n -> Levels]
Q(s) == [i \in 1..Len(s) |-> RInt(s[i])]
(* Columns: close x; high is x+1 or the neighbour, low x-1...; volume and buy volume from the levels too. *)
Cols(s) == [x |-> Q(s), h |-> [i \in 1..Len(s) |-> RInt(s[i] + 1 + (i % 2))], l |-> [i \in 1..Len(s) |-> RQ(s[i], 2)],
            v |-> [i \in 1..Len(s) |-> RInt(s[Len(s) + 1 - i] + i)], b |-> [i \in 1..Len(s) |-> RQ(s[Len(s) + 1 - i], i)]]
Init == \E n \in 1..MaxN : \E s \in Series(n), w \in Windows, g \in Feats :
          Start(g, [w |-> w, w2 |-> w + 2, w3 |-> 3], Cols(s))
Report == AtEnd /\ EmitLine(ToJson([f |-> f, p |-> p, x |-> [i \in 1..NBars |-> bars.x[i][1]]])) /\ UNCHANGED vars
Next == Bar \/ Report
Spec == Init /\ [][Next]_vars

Last == outs[Len(outs)]
Def == outs # <<>> /\ ~RIsNaN(Last)
Win(c) == LET n == Len(outs) IN {bars[c][i] : i \in (IF n < p.w THEN 1 ELSE n - p.w + 1)..n}
(* Defined exactly where there are enough rows (and no 0/0). *)
Undefinedness == outs # <<>> =>
  LET n == Len(outs) IN
  CASE f \in {"rolling_mean", "rolling_max", "rolling_min", "get_vpin"} -> Def <=> n >= p.w
    [] f \in {"rolling_mom"} -> Def <=> n > p.w
    [] f \in {"ewm_mean", "average_true_range", "macd", "macd_signal"} -> Def
    [] f = "ewm_mom" -> Def <=> n >= p.w2 + 1
    [] f = "get_amihud_lambda" -> Def <=> n > p.w
    [] f = "rsi" -> Def => n >= p.w
    [] OTHER -> TRUE
Bounds == Def =>
  CASE f \in {"rsi", "ewm_rsi"} -> RLe(RInt(0), Last) /\ RLe(Last, RInt(100))
    [] f = "get_vpin" -> RLe(RInt(0), Last) /\ ((\A i \in 1..Len(outs) : RLe(bars.b[i], bars.v[i])) => RLe(Last, RInt(1)))
    [] f \in {"rolling_mean", "rolling_max", "rolling_min"} -> \E a, b \in Win("x") : RLe(a, Last) /\ RLe(Last, b)
    [] f = "ewm_mean" -> \E i, j \in 1..Len(outs) : RLe(bars.x[i], Last) /\ RLe(Last, bars.x[j])
    [] f \in {"average_true_range", "get_kyle_lambda", "get_amihud_lambda"} -> RLe(RInt(0), Last)
    [] OTHER -> TRUE
(* RSI is 100 in a window of rises only and 0 in a window of falls only. *)
Steps == LET n == Len(outs) IN {RSub(bars.x[i], bars.x[i-1]) : i \in (IF n < p.w THEN 2 ELSE IF n = p.w THEN 2 ELSE n - p.w + 1)..n}
RsiExtremes == (Def /\ f = "rsi" /\ Len(outs) >= 2 /\ Steps # {}) =>
  /\ ((\A d \in Steps : RLt(RInt(0), d)) => Last = RInt(100))
  /\ ((\A d \in Steps : RLt(d, RInt(0))) => Last = RInt(0))
(* The machine has one output per bar, and bars to come do not matter: an     *)
(* output once produced never changes.                                        *)
OnePerBar == Len(outs) = Len(aux)
Causal == [][\A i \in 1..Len(outs) : outs'[i] = outs[i]]_vars
=============================================================================
