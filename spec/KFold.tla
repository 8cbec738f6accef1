------------------------------- MODULE KFold --------------------------------
(* TimeAwareKFold.split as a state machine: one sweep over one data set.      *)
(* Samples are numbered 0..n-1; sample i has group c.g[i+1].  Groups are      *)
(* integers; a distance of one unit of n_purge / n_embargo is c.u in group    *)
(* values (1 for plain integers, the length of freq for date-times).          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES c,      \* settings and data: g, u, nf, emb, pur, lf
          phase,  \* "start" -> "shift" -> "emit" -> "done" | "error"
          last,   \* last[f] = index of the last sample of fold f
          fold,   \* the fold being worked on, 1..nf
          out     \* the splits yielded so far
vars == <<c, phase, last, fold, out>>

Min(a, b) == IF a < b THEN a ELSE b
N == Len(c.g)
Idx == 0..(N-1)
G(i) == c.g[i+1]

(* Equal-size boundaries: sizes differ by at most one, larger folds first.    *)
EqualLast(f) == LET q == N \div c.nf  r == N % c.nf IN f * q + Min(f, r) - 1
(* The last sample of the group of sample i.                                  *)
GroupEnd(i) == CHOOSE j \in i..(N-1) : G(j) = G(i) /\ (j = N-1 \/ G(j+1) # G(i))

EnoughSamples == N >= c.nf
RoomForTraining == c.pur + c.emb < N /\ c.pur + c.emb <= N - N \div c.nf
Feasible == EnoughSamples /\ RoomForTraining

FoldFirst(f) == IF f = 1 THEN 0 ELSE last[f-1] + 1
Fold(f) == FoldFirst(f)..last[f]
FirstSplit == IF c.lf THEN 2 ELSE 1
NSplits == c.nf - FirstSplit + 1

(* The training samples that go with a set of test samples: the definition    *)
(* is by groups, and does not care how the test set came about.               *)
MayTrain(i, test) ==
  LET tg == {G(j) : j \in test}
      first == CHOOSE x \in tg : \A y \in tg : x <= y
      end == CHOOSE x \in tg : \A y \in tg : y <= x
  IN /\ G(i) \notin tg
     /\ ~(end < G(i) /\ G(i) <= end + c.pur * c.u)
     /\ ~(first - c.emb * c.u <= G(i) /\ G(i) < first)
     /\ (c.lf => G(i) < first)
Train(test) == {i \in Idx : MayTrain(i, test)}

-----------------------------------------------------------------------------
Start(cfg) == /\ c = cfg /\ phase = "start" /\ last = <<>> /\ fold = 1 /\ out = <<>>

Reject == /\ phase = "start" /\ ~Feasible
          /\ phase' = "error" /\ UNCHANGED <<c, last, fold, out>>
Cut == /\ phase = "start" /\ Feasible
       /\ last' = [f \in 1..c.nf |-> EqualLast(f)]
       /\ phase' = "shift" /\ fold' = 1 /\ UNCHANGED <<c, out>>
(* Move the end of the fold forward to the end of the group it would cut.     *)
Shift == /\ phase = "shift" /\ fold < c.nf
         /\ GroupEnd(last[fold]) < EqualLast(fold + 1)
         /\ last' = [last EXCEPT ![fold] = GroupEnd(last[fold])]
         /\ fold' = fold + 1 /\ UNCHANGED <<c, phase, out>>
(* A group that covers the whole next fold would leave that fold empty.       *)
Span == /\ phase = "shift" /\ fold < c.nf
        /\ GroupEnd(last[fold]) >= EqualLast(fold + 1)
        /\ phase' = "error" /\ UNCHANGED <<c, last, fold, out>>
Shifted == /\ phase = "shift" /\ fold = c.nf
           /\ phase' = "emit" /\ fold' = FirstSplit /\ UNCHANGED <<c, last, out>>
Yield == /\ phase = "emit" /\ fold <= c.nf /\ Train(Fold(fold)) # {}
         /\ out' = Append(out, [train |-> Train(Fold(fold)), test |-> Fold(fold)])
         /\ fold' = fold + 1 /\ UNCHANGED <<c, phase, last>>
Starve == /\ phase = "emit" /\ fold <= c.nf /\ Train(Fold(fold)) = {}
          /\ phase' = "error" /\ UNCHANGED <<c, last, fold, out>>
Done == /\ phase = "emit" /\ fold = c.nf + 1
        /\ phase' = "done" /\ UNCHANGED <<c, last, fold, out>>
Next == Reject \/ Cut \/ Shift \/ Span \/ Shifted \/ Yield \/ Starve \/ Done

-----------------------------------------------------------------------------
(* The properties, stated on the splits alone.                                *)
IsRange(s) == \E a, b \in Idx : a <= b /\ s = a..b
TestsAreRanges == \A k \in 1..Len(out) : IsRange(out[k].test)
TestsDisjoint == \A j, k \in 1..Len(out) : j # k => out[j].test \cap out[k].test = {}
GroupsNotSplit == \A k \in 1..Len(out) : \A i \in out[k].test, j \in Idx : G(i) = G(j) => j \in out[k].test
TestsInOrder == \A j, k \in 1..Len(out) : j < k => \A x \in out[j].test, y \in out[k].test : x < y
TestsCover == (phase = "done") =>
   LET cov == UNION {out[k].test : k \in 1..Len(out)} IN
   IF c.lf THEN cov = last[1] + 1..(N-1) ELSE cov = Idx
CountRight == (phase = "done") => Len(out) = NSplits
ShiftLeast == (phase \in {"emit", "done"}) => \A f \in 1..c.nf : last[f] >= EqualLast(f) /\ last[f] = GroupEnd(EqualLast(f))
NoLeak == \A k \in 1..Len(out) : LET s == out[k] IN
   /\ s.train # {} /\ s.train \cap s.test = {}
   /\ \A i \in s.train, j \in s.test :
        /\ G(i) # G(j)
        /\ (c.lf => i < j)
        /\ (G(i) > G(j) => \E m \in s.test : G(i) - G(m) > c.pur * c.u)
        /\ (G(i) < G(j) => \E m \in s.test : G(m) - G(i) > c.emb * c.u)
C01Inv == TestsAreRanges /\ TestsDisjoint /\ GroupsNotSplit /\ TestsInOrder /\ TestsCover /\ CountRight /\ ShiftLeast
C02Inv == NoLeak
TypeOK == phase \in {"start", "shift", "emit", "done", "error"} /\ fold \in 1..(c.nf + 1)
=============================================================================
