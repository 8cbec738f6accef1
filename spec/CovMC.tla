-------------------------------- MODULE CovMC -------------------------------
(* Small matrices with exact numbers: every covariance with square variances, *)
(* every block structure, every integer spectrum.                             *)
EXTENDS Rat, TLC, Json, Emit
CONSTANTS Dims, Stdv, MaxBlock, MaxBlocks, MaxEig
RZero == RInt(0)
ROne == RInt(1)
RECURSIVE ISqrt(_, _)
ISqrt(n, r) == IF r * r >= n THEN r ELSE ISqrt(n, r + 1)
RSqrt(a) == IF RIsNaN(a) \/ a[1] < 0 THEN RNaN ELSE <<ISqrt(a[1], 0), ISqrt(a[2], 0)>>      \* of squares
INSTANCE Cov WITH Zero <- RZero, One <- ROne, NInt <- RInt, Add <- RAdd, Sub <- RSub, Mul <- RMul, Div <- RDiv, Sqrt <- RSqrt, Max2 <- RMax, Min2 <- RMin, Sum <- RSum
VARIABLES kind, x, form, y
vars == <<kind, x, form, y>>
Rho == {RQ(-1, 1), RQ(-1, 2), RZero, RQ(1, 3), ROne}
(* a covariance is given by standard deviations and correlations *)
Build(n, s, r) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RInt(s[i] * s[i]) ELSE RMul(r[IF i < j THEN <<i, j>> ELSE <<j, i>>], RInt(s[i] * s[j]))]]
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
Init ==
  /\ form = "cov"
  /\ \/ kind = "cov" /\ y = <<>> /\ \E n \in Dims : \E s \in [1..n -> Stdv], r \in [Pairs(n) -> Rho] : x = Build(n, s, r)
     \/ kind = "block" /\ y = <<>> /\ \E b \in 1..MaxBlocks : \E sz \in [1..b -> 1..MaxBlock], c \in [1..b -> {RQ(-1, 4), RZero, RQ(1, 2)}] : x = [s |-> sz, c |-> c]
     \/ kind = "eig" /\ \E n \in 1..3 : \E e \in [1..n -> 0..MaxEig], k \in 1..n :
          /\ \A i \in 1..(n - 1) : e[i] >= e[i + 1]
          /\ RSum([i \in 1..n |-> RInt(e[i])]) = RInt(n)
          /\ x = [i \in 1..n |-> RInt(e[i])] /\ y = k
ToCor == kind = "cov" /\ form = "cov" /\ form' = "cor" /\ y' = Stds(x, RQ(1, 1000)) /\ x' = CorOf(x, Stds(x, RQ(1, 1000))) /\ UNCHANGED kind
ToCov == kind = "cov" /\ form = "cor" /\ form' = "again" /\ x' = CovOf(x, y) /\ UNCHANGED <<kind, y>>
Make == kind = "block" /\ form = "cov" /\ form' = "cor" /\ x' = Blocks(x.s, x.c) /\ y' = x /\ UNCHANGED kind
        /\ EmitLine(ToJson([s |-> x.s, c |-> x.c]))
Complete == kind = "eig" /\ form = "cov" /\ form' = "full" /\ x' = CompleteVals(SubSeq(x, 1, y), Len(x)) /\ y' = <<x, y>> /\ UNCHANGED kind
Next == ToCor \/ ToCov \/ Make \/ Complete
Spec == Init /\ [][Next]_vars
Symmetric == kind \in {"cov"} \/ (kind = "block" /\ form = "cor") => \A i, j \in 1..Len(x) : x[i][j] = x[j][i]
UnitDiag == form = "cor" => \A i, j \in 1..Len(x) : x[i][i] = ROne /\ RLe(x[i][j], ROne) /\ RLe(RInt(-1), x[i][j])
RoundTrip == [][form = "cor" /\ form' = "again" => x' = Mat(Len(x), LAMBDA i, j : RMul(x[i][j], RMul(y[i], y[j])))]_vars
Inverse == form = "again" => \A i \in 1..Len(x) : x[i][i] = RMul(y[i], y[i]) /\ CorOf(x, y) = CorOf(x, Stds(x, RQ(1, 1000)))
BlockSums == kind = "block" /\ form = "cor" =>
  \A b \in 1..Len(y.s) : RSum([i \in 1..Len(x) |-> IF InBlock(y.s, b, i) THEN RSum(x[i]) ELSE RZero]) = RAdd(RInt(y.s[b]), RMul(RInt(y.s[b] * (y.s[b] - 1)), y.c[b]))
FullSum == form = "full" => RSum(x) = RInt(Len(x))
FullOrder == form = "full" => \A i \in 1..(Len(x) - 1) : RLe(x[i + 1], x[i])
FullKept == form = "full" => SubSeq(x, 1, y[2]) = SubSeq(y[1], 1, y[2])
=============================================================================
