-------------------------------- MODULE Bands -------------------------------
(* A band object: fixed when it is made, read by five methods in any order    *)
(* and any number of times.  Per row it is given by the price, the middle,    *)
(* the width measure and the multiplier.                                      *)
EXTENDS Integers, Sequences
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Div(_, _), Two
VARIABLES obj,     \* [price, mid, wid, mult]
          calls    \* log of calls: [m, v]
Methods == {"upper", "middle", "lower", "bandwidth", "percent_b"}
Half(o) == Mul(o.mult, o.wid)
Upper(o) == Add(o.mid, Half(o))
Lower(o) == Sub(o.mid, Half(o))
Read(o, m) ==
  CASE m = "upper" -> Upper(o)
    [] m = "middle" -> o.mid
    [] m = "lower" -> Lower(o)
    [] m = "bandwidth" -> Div(Sub(Upper(o), Lower(o)), o.mid)
    [] m = "percent_b" -> Div(Sub(o.price, Lower(o)), Sub(Upper(o), Lower(o)))
Call(m) == calls' = Append(calls, [m |-> m, v |-> Read(obj, m)]) /\ UNCHANGED obj
=============================================================================
