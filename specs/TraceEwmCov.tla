------------------------------ MODULE TraceEwmCov ------------------------------
EXTENDS EwmCov, TLC, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg /\ Start(cfg)
Ev == T[tid].ev[l + 1]
More == l < Len(T[tid].ev) /\ fail = "" /\ l' = l + 1 /\ UNCHANGED tid
Check == fail' = IF Ev.y = out' THEN "" ELSE IF cfg.kind = "var" THEN "VarOutput" ELSE "CovOutput"
TraceVar == cfg.kind = "var" /\ More /\ VarStep(Ev.x[1]) /\ Check
TraceCov == cfg.kind = "cov" /\ More /\ CovStep(Ev.x[1], Ev.x[2], Ev.x[3]) /\ Check
TraceNext == TraceVar \/ TraceCov
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> out]))
================================================================================
