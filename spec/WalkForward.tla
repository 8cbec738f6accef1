----------------------------- MODULE WalkForward ----------------------------
(* One WalkForward object and the sweeps opened on it.  A sweep is a          *)
(* generator: it may be advanced, abandoned, and interleaved with others; the *)
(* object remembers the number of splits of the sweep completed last.         *)
(* Sample i (0-based) of data d has group d[i+1], groups are integers, and    *)
(* one unit of the windows and the embargo is s.u in group values.            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

VARIABLES s,      \* settings of the object: tw, sw, emb, u, rolling
          sweep,  \* sweep[k]: the k-th sweep opened: d, ph, ts, te (training window), n
          count,  \* number of splits of the last completed sweep
          final   \* has any sweep been completed
vars == <<s, sweep, count, final>>

Idx(d) == 0..(Len(d) - 1)
GroupSet(d) == {d[i] : i \in 1..Len(d)}
Largest(S) == Max(S)
Smallest(S) == Min(S)
LastUpTo(d, v) == Largest({x \in GroupSet(d) : x <= v})
FirstAfter(d, v) == Smallest({x \in GroupSet(d) : x > v})
LastGroup(d) == d[Len(d)]

WindowsPositive == s.tw >= 1 /\ s.sw >= 1
FirstTrainEnd(d) == LastUpTo(d, d[1] + s.tw * s.u - s.u)
Splittable(d) == WindowsPositive /\ Len(d) > 0 /\ FirstTrainEnd(d) < LastGroup(d)

(* The split that a sweep in state w produces next.                           *)
TestFirst(w) == FirstAfter(w.d, w.te)
TestLast(w) == LastUpTo(w.d, TestFirst(w) + s.sw * s.u - s.u)
TestSet(w) == LET lo == TestFirst(w)  hi == TestLast(w) IN {i \in Idx(w.d) : lo <= w.d[i+1] /\ w.d[i+1] <= hi}
Embargoed(first, v) == first - s.emb * s.u <= v /\ v < first
TrainSet(w) == LET first == TestFirst(w) IN {i \in Idx(w.d) : w.ts <= w.d[i+1] /\ w.d[i+1] <= w.te /\ ~Embargoed(first, w.d[i+1])}

New(d) == [d |-> d, ph |-> "new", ts |-> 0, te |-> 0, n |-> 0]
(* The state of a sweep that is about to produce a split.                     *)
Ready(w) == CASE w.ph = "new" -> [w EXCEPT !.ts = w.d[1], !.te = FirstTrainEnd(w.d), !.ph = "run"]
              [] w.ph = "run" -> LET e == TestLast(w) IN
                   [w EXCEPT !.te = e, !.ts = IF s.rolling THEN e - s.tw * s.u + s.u ELSE w.ts]
AtEnd(w) == w.ph = "run" /\ TestLast(w) >= LastGroup(w.d)
Live(k) == sweep[k].ph \in {"new", "run"}

-----------------------------------------------------------------------------
Start(set) == s = set /\ sweep = <<>> /\ count = 0 /\ final = FALSE

Open(d) == sweep' = Append(sweep, New(d)) /\ UNCHANGED <<s, count, final>>
Advance(k, w) == sweep' = [sweep EXCEPT ![k] = w]
Reject(k) == /\ sweep[k].ph = "new" /\ ~Splittable(sweep[k].d)
             /\ Advance(k, [sweep[k] EXCEPT !.ph = "dead"]) /\ UNCHANGED <<s, count, final>>
(* Settings and data for which a split can be produced now.                   *)
CanStep(k) == /\ Live(k) /\ ~AtEnd(sweep[k])
              /\ (sweep[k].ph = "new" => Splittable(sweep[k].d))
Yield(k) == /\ CanStep(k)
            /\ LET w == Ready(sweep[k]) IN
               /\ TrainSet(w) # {}
               /\ Advance(k, [w EXCEPT !.n = @ + 1])
            /\ UNCHANGED <<s, count, final>>
(* The embargo has removed all training samples.                              *)
Starve(k) == /\ CanStep(k) /\ TrainSet(Ready(sweep[k])) = {}
             /\ Advance(k, [Ready(sweep[k]) EXCEPT !.ph = "dead"])
             /\ UNCHANGED <<s, count, final>>
Stop(k) == /\ Live(k) /\ AtEnd(sweep[k])
           /\ Advance(k, [sweep[k] EXCEPT !.ph = "done"])
           /\ count' = sweep[k].n /\ final' = TRUE /\ UNCHANGED s
(* Advancing a sweep that has ended does nothing.                             *)
After(k) == ~Live(k) /\ UNCHANGED vars
Close(k) == /\ Advance(k, [sweep[k] EXCEPT !.ph = IF Live(k) THEN "dead" ELSE @]) /\ UNCHANGED <<s, count, final>>
Query == UNCHANGED vars
Announced == IF final THEN count ELSE 0

-----------------------------------------------------------------------------
(* Properties of the design, on every reachable split.                        *)
Current == {sweep[k] : k \in {j \in 1..Len(sweep) : sweep[j].ph = "run" /\ sweep[j].n > 0}}
TrainBeforeTest == \A w \in Current : \A i \in TrainSet(w), j \in TestSet(w) : w.d[i+1] < w.d[j+1]
EmbargoKept == \A w \in Current : \A i \in TrainSet(w), j \in TestSet(w) : w.d[j+1] - w.d[i+1] > s.emb * s.u
Nonempty == \A w \in Current : TrainSet(w) # {} /\ TestSet(w) # {}
TestFollows == \A w \in Current : TestFirst(w) > w.te /\ \A x \in GroupSet(w.d) : ~(w.te < x /\ x < TestFirst(w))
TrainWindow == \A w \in Current : s.rolling /\ w.n > 1 => \A i \in TrainSet(w) : w.te - w.d[i+1] < s.tw * s.u
CountOfDone == final => \E k \in 1..Len(sweep) : sweep[k].ph = "done" /\ sweep[k].n = count
NotFinal == ~final => \A k \in 1..Len(sweep) : sweep[k].ph # "done"
C03Inv == TrainBeforeTest /\ EmbargoKept /\ TestFollows /\ TrainWindow
C04Inv == Nonempty /\ CountOfDone /\ NotFinal
=============================================================================
