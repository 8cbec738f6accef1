-------------------------------- MODULE Emit --------------------------------
(* EmitLine(s) appends the string s as one line to a file and is TRUE.  It is *)
(* how behaviours (MC modules) and verdicts (Trace modules) leave TLC.  The   *)
(* effect is provided by lib/java/Emit.java.                                  *)
EmitLine(line) == TRUE
=============================================================================
