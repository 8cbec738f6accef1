------------------------------ MODULE LoggerMC ------------------------------
EXTENDS Logger, Json, Emit
CONSTANTS Levels, MaxLen
VARIABLES hist
vars == <<level, console, file, out, hist>>
Init == LgStart /\ hist = <<>>
A(op, l, f) == [op |-> op, l |-> l, f |-> f]
Msg == ToString(Len(hist) + 1)
Step == \/ \E v \in Levels, f \in Paths \cup {"none"} : Configure(v, f) /\ hist' = Append(hist, A("cfg", v, f))
        \/ \E l \in Levels : LogMsg(l, Msg) /\ hist' = Append(hist, A("log", l, "none"))
        \/ ImportAny /\ hist' = Append(hist, A("imp", 0, "none"))
Next == Len(hist) < MaxLen /\ Step /\ (Len(hist') < MaxLen \/ EmitLine(ToJson([h |-> hist'])))
Spec == Init /\ [][Next]_vars
Range(s) == {s[i] : i \in 1..Len(s)}
(* Without a configuration nothing is written; a file never has what the console has not. *)
Quiet == ~console => \A s \in DOMAIN out : out[s] = <<>>
FileInConsole == \A p \in Paths : Range(out[p]) \subseteq Range(out["console"])
Once == \A s \in DOMAIN out : \A i, j \in 1..Len(out[s]) : (i # j /\ out[s][i] # "configured") => out[s][i] # out[s][j]
OneFile == \A p, q \in Paths : Open(p) + Open(q) <= 1 \/ p = q
(* What was written stays written. *)
AppendOnly == [][\A s \in DOMAIN out : SubSeq(out'[s], 1, Len(out[s])) = out[s]]_vars
=============================================================================
