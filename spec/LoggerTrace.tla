----------------------------- MODULE LoggerTrace ----------------------------
(* Logged sessions: steps ev, after each the effective level, the handlers    *)
(* (consoles, files) and the number of open descriptors of each file; out:    *)
(* what the sinks had received in the end.                                    *)
EXTENDS Integers, Sequences, TraceKit
VARIABLES k, i, level, console, file, out, fails
tvars == <<k, i, level, console, file, out, fails>>
INSTANCE Logger WITH Paths <- {"a", "b", "c"}
R == Trace[k]
Ev == R.ev[i]
C30(c, t) == Chk(c, "C30 " \o t)
TraceInit == k \in 1..NRec /\ i = 1 /\ fails = <<>> /\ LgStart
After(e) ==
  C30(e.r = "ok", "raises")
  \o C30(e.level = level', "logger has not the verbosity of the last configuration")
  \o C30(e.consoles = (IF console' THEN 1 ELSE 0), "not exactly one console handler")
  \o C30(e.files = (IF file' = "none" THEN <<>> ELSE <<file'>>), "file handlers are not those of the last configuration")
  \o C30(\A p \in {"a", "b", "c"} : e.fds[p] <= Open(p)', "log files left open")
  \o C30(e.others, "another logger was reconfigured")
TStep == /\ i <= Len(R.ev) /\ i' = i + 1 /\ UNCHANGED k
         /\ CASE Ev.op = "cfg" -> Configure(Ev.l, Ev.f)
              [] Ev.op = "log" -> LogMsg(Ev.l, Ev.m)
              [] Ev.op = "imp" -> ImportAny
         /\ fails' = fails \o After(Ev)
Final ==
  C30(R.out.console = out["console"], "console has not received each record once")
  \o C30(\A p \in {"a", "b", "c"} : R.out[p] = out[p], "log file has not received each record once")
TEnd == i > Len(R.ev) /\ Verdict(k, fails \o Final) /\ UNCHANGED tvars
TraceNext == TStep \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
