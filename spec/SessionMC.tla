------------------------------ MODULE SessionMC -----------------------------
(* Small sessions: calls of a pure function of one object, of two objects,    *)
(* and of one that draws; edits, scribbles and reseeding.  Their shapes are   *)
(* the scripts that are run with the functions of the library.                *)
EXTENDS Session, Json, Emit
CONSTANTS MaxLen
VARIABLES hist
vars == <<heap, amb, memo, live, hist>>
Objs == {"a", "b"}
F(name, cs, r) == <<name, cs, r>>
Calls == {[n |-> "f", o |-> <<"a">>, d |-> FALSE], [n |-> "g", o |-> <<"a", "b">>, d |-> FALSE], [n |-> "r", o |-> <<>>, d |-> TRUE]}
Init == /\ heap = [o \in Objs |-> <<o, 0>>] /\ amb = [npr |-> <<"start">>, pyr |-> 0, out |-> 0, set |-> 0]
        /\ memo = << >> /\ live = <<>> /\ hist = <<>>
Do(op, x) == hist' = Append(hist, [op |-> op, x |-> x])
Next == /\ Len(hist) < MaxLen
        /\ \/ \E c \in Calls : LET k == Key(c.n, c.o, c.d) IN Call(c.n, c.o, c.d, F(k[1], k[2], k[3]), IF c.d THEN Append(amb.npr, "drawn") ELSE amb.npr) /\ Do("call", c.n)
           \/ \E o \in Objs : \E v \in 0..1 : heap[o] # <<o, v>> /\ Edit(o, <<o, v>>) /\ Do("edit", o)
           \/ live # <<>> /\ live[Len(live)] # <<"mine">> /\ Scribble(Len(live), <<"mine">>) /\ Do("scribble", "last")
           \/ amb.npr # <<"seed">> /\ Reseed(<<"seed">>) /\ Do("reseed", "np")
        /\ (Len(hist') < MaxLen \/ EmitLine(ToJson([h |-> hist'])))
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')].op
(* Only the user changes the heap, only drawing calls and the user the numpy generator, nothing the rest. *)
HeapMine == [][heap' # heap => Last = "edit"]_vars
AmbientKept == [][/\ amb'.pyr = amb.pyr /\ amb'.out = amb.out /\ amb'.set = amb.set
                  /\ (amb'.npr # amb.npr => Last = "reseed" \/ (Last = "call" /\ hist'[Len(hist')].x = "r"))]_vars
(* A known call gives what it gave, whatever was done since; and what is known is never forgotten. *)
Same == [][\A k \in DOMAIN memo : k \in DOMAIN memo' /\ memo'[k] = memo[k]]_vars
Determined == \A k \in DOMAIN memo : memo[k] = F(k[1], k[2], k[3])
LiveMine == [][\A i \in 1..Len(live) : live'[i] # live[i] => Last = "scribble"]_vars
=============================================================================
