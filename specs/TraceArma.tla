------------------------------ MODULE TraceArma -------------------------------
EXTENDS Arma, TLC, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg /\ Start(cfg)
Ev == T[tid].ev[l + 1]
TraceStep == /\ l < Len(T[tid].ev) /\ fail = ""
             /\ Step(Ev.x)
             /\ fail' = IF Ev.y = out' THEN "" ELSE "Output"
             /\ l' = l + 1 /\ UNCHANGED tid
TraceNext == TraceStep
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> out]))
================================================================================
