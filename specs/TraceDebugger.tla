----------------------------- MODULE TraceDebugger -----------------------------
EXTENDS Debugger, TLC, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg /\ Start
Ev == T[tid].ev[l + 1]
\* the answer of an operation may not have been recorded (those of concurrent steps)
TraceStep == /\ l < Len(T[tid].ev) /\ fail = ""
             /\ Step(Ev.o)
             /\ fail' = IF Ev.seen => Ev.y = y' THEN "" ELSE "Report"
             /\ l' = l + 1 /\ UNCHANGED tid
TraceNext == TraceStep
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> y]))
================================================================================
