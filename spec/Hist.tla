-------------------------------- MODULE Hist --------------------------------
(* Equal-width histograms, their entropies, and the number of bins.           *)
EXTENDS Lin, FiniteSets
Low(v) == LET a == FVMin(v)  b == FVMax(v) IN IF FEq(a, b) THEN FSub(a, FQ(1, 2)) ELSE a
High(v) == LET a == FVMin(v)  b == FVMax(v) IN IF FEq(a, b) THEN FAdd(b, FQ(1, 2)) ELSE b
Edge(v, n, j) == FAdd(Low(v), FMul(FDiv(FInt(j), FInt(n)), FSub(High(v), Low(v))))   \* lower edge of bin j+1
(* Bins contain their lower edge; the last one its upper edge too. *)
Bin(v, n, z) == CHOOSE j \in 1..n : (j = 1 \/ FLe(Edge(v, n, j - 1), z)) /\ (j = n \/ FLt(z, Edge(v, n, j)))
(* A value that rounding could put on either side of an inner edge. *)
Doubtful(v, n) == \E a \in 1..Len(v) : \E j \in 1..(n - 1) :
                     FClose(v[a], Edge(v, n, j), F0, FMul(FParse("1e-11"), FAdd(FSub(High(v), Low(v)), FAbs(v[a]))))
HistOf(v, n) == LET b == TLCEval([a \in 1..Len(v) |-> Bin(v, n, v[a])]) IN TLCEval([j \in 1..n |-> Cardinality({a \in 1..Len(v) : b[a] = j})])
JointOf(u, v, n) ==
  LET b == TLCEval([a \in 1..Len(u) |-> Bin(u, n, u[a])])  c == TLCEval([a \in 1..Len(v) |-> Bin(v, n, v[a])])
  IN TLCEval([j \in 1..n |-> TLCEval([l \in 1..n |-> Cardinality({a \in 1..Len(u) : b[a] = j /\ c[a] = l})])])
RECURSIVE Flat(_)
Flat(m) == IF m = <<>> THEN <<>> ELSE Head(m) \o Flat(Tail(m))
PlogP(c, n) == IF c = 0 THEN F0 ELSE LET p == FQ(c, n) IN FMul(p, FLog(p))
Ent(h, n) == FNeg(FSum(TLCEval([j \in 1..Len(h) |-> PlogP(h[j], n)])))
MIof(a, b, ab) == FSub(FAdd(a, b), ab)                      \* from the three entropies
NMIof(a, b, ab) == FDiv(MIof(a, b, ab), FSqrt(FMul(a, b)))
VIof(a, b, ab) == FSub(FMul(F2, ab), FAdd(a, b))
NVIof(a, b, ab) == FDiv(VIof(a, b, ab), ab)
(* Number of bins after Hacine-Gharbi and Ravier, before rounding. *)
Univariate(n) == LET N == FInt(n)
                     z == FPow(FAdd(FAdd(FInt(8), FMul(FInt(324), N)), FMul(FInt(12), FSqrt(FAdd(FMul(FInt(36), N), FMul(FInt(729), FSq(N)))))), FDiv(F1, FInt(3)))
                 IN FAdd(FAdd(FDiv(z, FInt(6)), FDiv(F2, FMul(FInt(3), z))), FQ(1, 3))
Bivariate(n, c) == FDiv(FSqrt(FAdd(F1, FSqrt(FAdd(F1, FDiv(FMul(FInt(24), FInt(n)), FSub(F1, FSq(c))))))), FSqrt(F2))
Near(q) == {b \in 1..200 : FClose(FInt(b), q, F0, FParse("0.500000001"))}
Optimal(a, b) ==           \* the numbers of bins that the documentation allows
  LET c == FAbs(FCor(a, b))  n == Len(a) IN
  IF FIsNaN(c) THEN {}
  ELSE (IF FLt(FParse("0.9999"), c) THEN Near(Univariate(n)) ELSE {}) \cup (IF FLt(c, FParse("0.99999999")) THEN Near(Bivariate(n, c)) ELSE {})
=============================================================================
