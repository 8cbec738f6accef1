------------------------------ MODULE ClusterMC -----------------------------
(* Every distance matrix of few items over a few levels, every greedy run     *)
(* (ties broken in all ways), with exact arithmetic.                          *)
EXTENDS Rat, FiniteSets, TLC, Json, Emit
CONSTANTS Sizes, Levels, Methods
VARIABLES meth, items, live, dist, log, d0
INSTANCE Cluster WITH NInt <- RInt, Add <- RAdd, Sub <- RSub, Mul <- RMul, Div <- RDiv, Max2 <- RMax, Min2 <- RMin, Sqrt <- ROpaque
vars == <<meth, items, live, dist, log, d0>>
Init == \E m \in Methods, n \in Sizes : \E u \in [{<<i, j>> \in (1..n) \X (1..n) : i < j} -> Levels] :
          /\ d0 = [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE IF i < j THEN u[<<i, j>>] ELSE u[<<j, i>>]]]
          /\ CStart(m, n, [i \in 1..n |-> [j \in 1..n |-> RInt(d0[i][j])]])
Least(s) == \A t \in DOMAIN dist : RLe(dist[s], dist[t])
Greedy == \E s \in DOMAIN dist : Least(s) /\ \E a, b \in s : a < b /\ Merge(a, b) /\ UNCHANGED d0
Report == Len(log) = 0 /\ EmitLine(ToJson([m |-> meth, d |-> d0])) /\ UNCHANGED vars
Next == Greedy \/ Report
Spec == Init /\ [][Next]_vars
Tiling == UNION Partition = 1..items /\ \A p, q \in DOMAIN live : p # q => live[p] \cap live[q] = {}
Shrinking == Cardinality(DOMAIN live) = items - Len(log)
(* These linkages have no inversions. *)
Monotone == \A i \in 1..(Len(log) - 1) : RLe(log[i].h, log[i+1].h)
(* What the distances between live clusters are, in terms of the items. *)
Between(p, q) == {RInt(d0[i][j]) : i \in live[p], j \in live[q]}
Meaning == \A p, q \in DOMAIN live : p # q =>
  LET s == Between(p, q)  v == dist[{p, q}] IN
  CASE meth = "single" -> v \in s /\ \A x \in s : RLe(v, x)
    [] meth = "complete" -> v \in s /\ \A x \in s : RLe(x, v)
    [] meth = "average" -> RMul(v, RInt(Cardinality(live[p]) * Cardinality(live[q]))) =
         RSum([k \in 1..(items * items) |-> LET i == ((k - 1) \div items) + 1  j == ((k - 1) % items) + 1 IN IF i \in live[p] /\ j \in live[q] THEN RInt(d0[i][j]) ELSE RInt(0)])
    [] OTHER -> TRUE
(* Partitions are nested: the clusters of a state are unions of those before. *)
Nested == [][\A p \in Partition : \E q \in Partition' : p \subseteq q]_vars
=============================================================================
