------------------------------- MODULE Validate -----------------------------
(* A call of a function behind validation guards, as a machine: arguments are *)
(* bound to parameters, every guard (outermost first) looks at its arguments  *)
(* in the order of its names, then the function runs.                         *)
(* A value is [t, s]: type and shape.  A guard is [g, names]: g = 1 for       *)
(* series or vectors, g = 2 for frames or matrices.                           *)
EXTENDS Integers, Sequences, TLC
VARIABLES params, guards, pos, kw,      \* parameter names; guards; positional arguments; keyword arguments: sequence of [n, v]
          phase, gi, ai                 \* "bind", "check" (guard gi, name ai), "run", or an outcome
vvars == <<params, guards, pos, kw, phase, gi, ai>>
VStart(ps, gs, p, q) == params = ps /\ guards = gs /\ pos = p /\ kw = q /\ phase = "bind" /\ gi = 1 /\ ai = 1
KwNames == {kw[i].n : i \in 1..Len(kw)}
ParamSet == {params[i] : i \in 1..Len(params)}
Filled == {params[i] : i \in 1..Len(pos)}
Binds == Len(pos) <= Len(params) /\ KwNames \subseteq ParamSet /\ Filled \cap KwNames = {}
Bound == Filled \cup KwNames
Value(n) == IF n \in Filled THEN pos[CHOOSE i \in 1..Len(pos) : params[i] = n] ELSE kw[CHOOSE i \in 1..Len(kw) : kw[i].n = n].v
Accepts1(v) == v.t \in {"series", "array"} /\ Len(v.s) = 1 /\ v.s[1] >= 2
Accepts2(v) == v.t \in {"frame", "array"} /\ Len(v.s) = 2 /\ v.s[2] >= 2
Accepts(g, v) == v.t = "none" \/ (IF g = 1 THEN Accepts1(v) ELSE Accepts2(v))
Keep == UNCHANGED <<params, guards, pos, kw>>
Bind == /\ phase = "bind" /\ phase' = (IF Binds THEN "check" ELSE "TypeError") /\ UNCHANGED <<gi, ai>> /\ Keep
Check == /\ phase = "check" /\ gi <= Len(guards) /\ Keep
         /\ LET names == guards[gi].names IN
            IF ai > Len(names) THEN gi' = gi + 1 /\ ai' = 1 /\ phase' = phase
            ELSE /\ phase' = (IF names[ai] \in Bound /\ ~Accepts(guards[gi].g, Value(names[ai])) THEN "ValueError" ELSE "check")
                 /\ ai' = ai + 1 /\ gi' = gi
(* All parameters are required. *)
Run == /\ phase = "check" /\ gi > Len(guards) /\ Keep
       /\ phase' = (IF Bound = ParamSet THEN "ok" ELSE "TypeError") /\ UNCHANGED <<gi, ai>>
VNext == Bind \/ Check \/ Run
Over == phase \in {"ok", "ValueError", "TypeError"}
(* Splitters: the first complaint about (x, y, groups, n_purge, n_embargo); sorted: groups are. *)
SplitComplaint(x, y, g, sorted, purge, embargo) ==
  CASE embargo = "type" \/ purge = "type" -> "TypeError"
    [] embargo = "negative" \/ purge = "negative" -> "ValueError"
    [] x \notin {"array", "frame"} -> "TypeError"
    [] y \notin {"none", "array", "series"} -> "TypeError"
    [] g \notin {"none", "array", "series", "index"} -> "TypeError"
    [] ~sorted -> "ValueError"
    [] OTHER -> "ok"
=============================================================================
