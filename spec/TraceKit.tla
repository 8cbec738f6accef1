------------------------------ MODULE TraceKit ------------------------------
(* What all trace specifications share.  A trace is a file of records, each   *)
(* the log of one run of the implementation.  A trace specification starts    *)
(* one behaviour per record, takes the specification's own actions, and adds  *)
(* a clause "<property> <what failed>" to its verdict wherever the log        *)
(* differs from what the specification allows.  Verdicts are total.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
NRec == Len(Trace)
Chk(cond, clause) == IF cond THEN <<>> ELSE <<clause>>
Has(r, f) == f \in DOMAIN r
Verdict(id, fails) == EmitLine(ToJson([id |-> id, fails |-> fails]))
=============================================================================
