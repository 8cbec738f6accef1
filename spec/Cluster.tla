------------------------------- MODULE Cluster ------------------------------
(* Agglomerative clustering as a machine: live clusters with sizes and mutual *)
(* distances; each step merges two of them into the next number.  Distances   *)
(* to the merged cluster follow the recurrence of Lance and Williams.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NInt(_), Add(_, _), Sub(_, _), Mul(_, _), Div(_, _), Max2(_, _), Min2(_, _), Sqrt(_)
VARIABLES meth, items,     \* linkage method, number of items
          live,            \* live clusters: number -> set of its items
          dist,            \* distances of pairs {a, b} of live clusters
          log              \* merges so far: [a, b, h, n]
Sq(a) == Mul(a, a)
CStart(m, n, d) ==         \* d: matrix
  /\ meth = m /\ items = n
  /\ live = [i \in 1..n |-> {i}]
  /\ dist = [s \in {{i, j} : i, j \in 1..n} \ {{i} : i \in 1..n} |-> LET i == CHOOSE x \in s : \A y \in s : x <= y  j == CHOOSE x \in s : x # i IN d[i][j]]
  /\ log = <<>>
Size(c) == Cardinality(live[c])
(* Distance from c to the union of a and b. *)
Union(c, a, b) ==
  LET ca == dist[{c, a}]  cb == dist[{c, b}]  ab == dist[{a, b}]
      na == NInt(Size(a))  nb == NInt(Size(b))  nc == NInt(Size(c))  ns == Add(na, nb)  t == Add(ns, nc)
  IN CASE meth = "single" -> Min2(ca, cb)
       [] meth = "complete" -> Max2(ca, cb)
       [] meth = "average" -> Div(Add(Mul(na, ca), Mul(nb, cb)), ns)
       [] meth = "weighted" -> Div(Add(ca, cb), NInt(2))
       [] meth = "centroid" -> Sqrt(Sub(Div(Add(Mul(na, Sq(ca)), Mul(nb, Sq(cb))), ns), Div(Mul(Mul(na, nb), Sq(ab)), Sq(ns))))
       [] meth = "median" -> Sqrt(Sub(Div(Add(Sq(ca), Sq(cb)), NInt(2)), Div(Sq(ab), NInt(4))))
       [] meth = "ward" -> Sqrt(Div(Sub(Add(Mul(Add(na, nc), Sq(ca)), Mul(Add(nb, nc), Sq(cb))), Mul(nc, Sq(ab))), t))
Next0 == items + Len(log) + 1       \* number of the next cluster
CanMerge(a, b) == a \in DOMAIN live /\ b \in DOMAIN live /\ a # b
Merge(a, b) ==
  /\ CanMerge(a, b)
  /\ LET rest == DOMAIN live \ {a, b}  new == Next0 IN
     /\ live' = [c \in rest \cup {new} |-> IF c = new THEN live[a] \cup live[b] ELSE live[c]]
     /\ dist' = TLCEval([s \in {{i, j} : i, j \in rest \cup {new}} \ {{i} : i \in rest \cup {new}} |->
                  IF new \in s THEN Union(CHOOSE c \in s : c # new, a, b) ELSE dist[s]])
     /\ log' = Append(log, [a |-> a, b |-> b, h |-> dist[{a, b}], n |-> Size(a) + Size(b)])
  /\ UNCHANGED <<meth, items>>
Done == Cardinality(DOMAIN live) = 1
Partition == {live[c] : c \in DOMAIN live}
=============================================================================
