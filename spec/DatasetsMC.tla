----------------------------- MODULE DatasetsMC -----------------------------
EXTENDS Datasets, Json, Emit
CONSTANTS MaxLen, MaxFrames
VARIABLES hist
vars == <<frames, hist>>
FileMC(d) == <<"file", d>>
Init == frames = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E d \in Names : Len(frames) < MaxFrames /\ Load(d, FileMC(d)) /\ hist' = Append(hist, [op |-> "load", d |-> d, h |-> 0])
           \/ \E h \in 1..Len(frames) : Change(h, <<"mine", ToString(Len(hist))>>) /\ hist' = Append(hist, [op |-> "change", d |-> "none", h |-> h])
           \/ Drop /\ Len(hist) = 1 /\ hist' = Append(hist, [op |-> "chdir", d |-> "none", h |-> 0])
        /\ (Len(hist') < MaxLen \/ EmitLine(ToJson([h |-> hist'])))
Spec == Init /\ [][Next]_vars
Fresh == [][Len(frames') > Len(frames) => frames'[Len(frames')].c = FileMC(frames'[Len(frames')].d)]_vars
Isolated == [][\A i \in 1..Len(frames) : \A j \in 1..Len(frames) : (i # j /\ frames'[i] # frames[i]) => frames'[j] = frames[j]]_vars
=============================================================================
