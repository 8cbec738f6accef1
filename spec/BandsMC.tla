------------------------------- MODULE BandsMC ------------------------------
(* Every object over small rationals and every sequence of calls.            *)
EXTENDS Rat, TLC, Json, Emit
CONSTANTS MaxCalls, Kinds
VARIABLES obj, calls, kind
R2 == RInt(2)
INSTANCE Bands WITH Add <- RAdd, Sub <- RSub, Mul <- RMul, Div <- RDiv, Two <- R2
vars == <<obj, calls, kind>>
(* Donchian: prices in a window give maximum and minimum, the price is one of them. *)
Init == /\ kind \in Kinds /\ calls = <<>>
        /\ \/ \E c \in 1..3, a \in 1..3, b \in 1..3 :
                /\ kind = "donchian" /\ c <= a /\ b <= c
                /\ obj = [price |-> RInt(c), mid |-> RQ(a + b, 2), wid |-> RQ(a - b, 2), mult |-> RInt(1)]
           \/ \E c, m \in 1..3, w \in 0..2, k \in {0, 1, 3} :
                /\ kind # "donchian"
                /\ obj = [price |-> RInt(c), mid |-> RInt(m), wid |-> RInt(w), mult |-> RQ(k, 2)]
(* One line per kind and sequence of methods (for one object). *)
Rep == obj = (IF kind = "donchian" THEN [price |-> RInt(2), mid |-> RInt(2), wid |-> RInt(1), mult |-> RInt(1)]
              ELSE [price |-> RInt(2), mid |-> RInt(2), wid |-> RInt(1), mult |-> RQ(1, 2)])
Report == Rep /\ EmitLine(ToJson([kind |-> kind, calls |-> [i \in 1..Len(calls) |-> calls[i].m]])) /\ UNCHANGED vars
Next == (Len(calls) < MaxCalls /\ UNCHANGED kind /\ \E m \in Methods : Call(m)) \/ Report
Spec == Init /\ [][Next]_vars
Rd(m) == Read(obj, m)
Ordered == RLe(Rd("lower"), Rd("middle")) /\ RLe(Rd("middle"), Rd("upper"))
Centred == RSub(Rd("upper"), Rd("middle")) = RSub(Rd("middle"), Rd("lower"))
Inside == LET b == Rd("percent_b") IN kind = "donchian" => RIsNaN(b) \/ (RLe(RInt(0), b) /\ RLe(b, RInt(1)))
(* What a call returns depends on the object only. *)
CallOrder == \A i, j \in 1..Len(calls) : calls[i].m = calls[j].m => calls[i].v = calls[j].v
=============================================================================
