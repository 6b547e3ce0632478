------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded executions.  Every trace module consumes one recorded     *)
(* event per step; Judge prints <<"FAIL", line, clause>> for each clause the  *)
(* observed event does not satisfy, so one run examines the whole trace.      *)
EXTENDS Common, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Judge(cl) == JudgeAt(l, cl)
Advance == l <= Len(Trace) /\ l' = l + 1
Unexpected == Judge(<< <<"unexpected_exception", FALSE>> >>)
=============================================================================
