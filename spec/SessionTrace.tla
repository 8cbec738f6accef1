----------------------------- MODULE SessionTrace ---------------------------
(* Sessions with the library, as logged: heap0, amb0 at the start; each event *)
(* ev[i] with the heap (objects that changed: hc), the ambient state after    *)
(* it, for calls the result and that of the same call in a fresh process      *)
(* (fresh), and the returned objects that changed since the last event (lc).  *)
EXTENDS TraceKit, Sequences
VARIABLES k, i, heap, amb, memo, live, fails
tvars == <<k, i, heap, amb, memo, live, fails>>
INSTANCE Session
R == Trace[k]
Ev == R.ev[i]
C29(c, t) == Chk(c, "C29 " \o t)
TraceInit == /\ k \in 1..NRec /\ i = 1 /\ fails = <<>> /\ memo = << >> /\ live = <<>>
             /\ heap = Trace[k].heap /\ amb = Trace[k].amb
(* The machine takes the step the log asks for, with the logged result if the machine allows it. *)
Objs == Ev.objs
K == Key(Ev.name, Objs, Ev.draws)
Expected == IF K \in DOMAIN memo THEN memo[K] ELSE Ev.fresh
Took == CASE Ev.op = "call" -> Call(Ev.name, Objs, Ev.draws, Expected, Ev.amb.npr)
          [] Ev.op = "edit" -> Edit(Ev.o, Ev.c)
          [] Ev.op = "scribble" -> live # <<>> /\ Scribble(Len(live), "mine")
          [] Ev.op = "reseed" -> Reseed(Ev.amb.npr)
TStep == /\ i <= Len(R.ev) /\ fails = <<>> /\ i' = i + 1 /\ UNCHANGED k       \* a session is over at its first failure
         /\ Took
         /\ fails' = fails
              \o (IF Ev.op # "call" THEN <<>> ELSE
                    C29(~Allowed(K, Ev.res) \/ Ev.res = Expected, Ev.name \o ": result differs from that of a fresh session")
                    \o C29(Allowed(K, Ev.res), Ev.name \o ": repeated call gives another result"))
              \o C29(\A o \in DOMAIN heap' : Ev.heap[o] = heap'[o], Ev.name \o (IF Ev.op = "scribble" THEN ": changing a result changes an object of the user" ELSE ": changes an object of the user"))
              \o C29(Ev.amb.npr = amb'.npr, Ev.name \o ": uses the global numpy generator")
              \o C29(Ev.amb.pyr = amb'.pyr, Ev.name \o ": uses the global Python generator")
              \o C29(Ev.amb.out = amb'.out, Ev.name \o ": writes to standard output")
              \o C29(Ev.amb.set = amb'.set, Ev.name \o ": changes settings of the process")
              \o C29(Ev.lc = <<>>, Ev.name \o (IF Ev.op = "edit" THEN ": changing an object of the user changes an earlier result" ELSE ": changes an earlier result"))
TEnd == /\ (i > Len(R.ev) \/ fails # <<>>) = TRUE /\ Verdict(k, fails) /\ UNCHANGED tvars
TraceNext == TStep \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
