------------------------------- MODULE Logger -------------------------------
(* The library logger: configured any number of times, with a console and at  *)
(* most one file.                                                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Paths
VARIABLES level, console, file, out       \* out: what each sink has received, console and files
lgvars == <<level, console, file, out>>
Info == 20
Warning == 30
LgStart == level = Warning /\ console = FALSE /\ file = "none" /\ out = [s \in Paths \cup {"console"} |-> <<>>]
Sinks(c, f) == (IF c THEN {"console"} ELSE {}) \cup (IF f = "none" THEN {} ELSE {f})
Write(o, sinks, m) == [s \in DOMAIN o |-> IF s \in sinks THEN Append(o[s], m) ELSE o[s]]
(* A configuration replaces the previous one, and announces itself. *)
Configure(v, f) ==
  /\ level' = v /\ console' = TRUE /\ file' = f
  /\ out' = IF v <= Info THEN Write(out, Sinks(TRUE, f), "configured") ELSE out
LogMsg(l, m) == out' = (IF l >= level THEN Write(out, Sinks(console, file), m) ELSE out) /\ UNCHANGED <<level, console, file>>
ImportAny == UNCHANGED lgvars
Open(p) == IF file = p THEN 1 ELSE 0
=============================================================================
