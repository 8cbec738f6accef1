------------------------------- MODULE Session ------------------------------
(* A user session with the library: objects of the user (heap), the ambient   *)
(* state of the process (the two global random generators, what was written,  *)
(* process settings), calls, and what they gave.  Contents and results are    *)
(* opaque tokens; a call is a name (function and plain arguments) and the     *)
(* objects it is given.                                                       *)
EXTENDS Integers, Sequences, TLC
VARIABLES heap,                         \* object -> content
          amb,                          \* [npr: numpy generator, pyr: Python generator, out: written, set: process settings]
          memo,                         \* call key -> result
          live                          \* returned objects: sequence of contents
svars == <<heap, amb, memo, live>>
(* What a call depends on: its name, the contents of its objects, and the     *)
(* state of the numpy generator if it is one of those that draw from it.      *)
Key(name, objs, draws) == <<name, [i \in 1..Len(objs) |-> heap[objs[i]]], IF draws THEN amb.npr ELSE "any">>
Allowed(key, res) == key \in DOMAIN memo => memo[key] = res
Call(name, objs, draws, res, npr2) ==
  LET key == Key(name, objs, draws) IN
  /\ Allowed(key, res)
  /\ memo' = (key :> res) @@ memo
  /\ live' = Append(live, res)
  /\ heap' = heap
  /\ amb' = IF draws THEN [amb EXCEPT !.npr = npr2] ELSE amb
Edit(o, c) == heap' = [heap EXCEPT ![o] = c] /\ UNCHANGED <<amb, memo, live>>
(* The user overwrites a returned object: nothing else changes. *)
Scribble(r, c) == r \in 1..Len(live) /\ live' = [live EXCEPT ![r] = c] /\ UNCHANGED <<heap, amb, memo>>
Reseed(s) == amb' = [amb EXCEPT !.npr = s] /\ UNCHANGED <<heap, memo, live>>
=============================================================================
