--------------------------------- MODULE Rat --------------------------------
(* Exact rationals for model checking: <<n, d>> in lowest terms with d > 0;   *)
(* <<0, 0>> stands for undefined (NaN).                                       *)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
RNaN == <<0, 0>>
RIsNaN(a) == a[2] = 0
RNorm(n, d) == IF d = 0 THEN RNaN
               ELSE LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
RInt(n) == <<n, 1>>
RQ(n, d) == RNorm(n, d)
RAdd(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN RNaN
              ELSE LET g == Gcd(a[2], b[2]) IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == IF RIsNaN(a) THEN a ELSE <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN RNaN
              ELSE LET x == RNorm(a[1], b[2])  y == RNorm(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
RDiv(a, b) == IF RIsNaN(a) \/ RIsNaN(b) \/ b[1] = 0 THEN RNaN ELSE RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
RLt(a, b) == ~RIsNaN(a) /\ ~RIsNaN(b) /\ a[1] * b[2] < b[1] * a[2]
RLe(a, b) == ~RIsNaN(a) /\ ~RIsNaN(b) /\ a[1] * b[2] <= b[1] * a[2]
REq(a, b) == ~RIsNaN(a) /\ a = b
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RInt(0) ELSE RAdd(s[Len(s)], RSum(SubSeq(s, 1, Len(s) - 1)))
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
RMax(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN RNaN ELSE IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN RNaN ELSE IF RLt(a, b) THEN a ELSE b
RECURSIVE RVMax(_)
RVMax(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[Len(s)], RVMax(SubSeq(s, 1, Len(s) - 1)))
RECURSIVE RVMin(_)
RVMin(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[Len(s)], RVMin(SubSeq(s, 1, Len(s) - 1)))
RECURSIVE RIPow(_, _)
RIPow(a, n) == IF n = 0 THEN RInt(1) ELSE RMul(a, RIPow(a, n - 1))
ROpaque(a) == RNaN      \* for operations that leave the rationals
=============================================================================
