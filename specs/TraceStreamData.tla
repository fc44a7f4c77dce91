---------------------------- MODULE TraceStreamData ----------------------------
(* One event per local step: per variable, the items that the module received.     *)
EXTENDS StreamData, TLC, Json, IOUtils
VARIABLES tid, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == /\ tid \in 1..Len(T)
             /\ cfg = T[tid].cfg /\ i = 0 /\ st = Init0(cfg) /\ out = <<>> /\ val = <<>>
             /\ fail = IF Len(T[tid].ev) # Len(T[tid].cfg.local) THEN "OneStepPerObservation" ELSE ""
Clause(e) == IF Len(e) # Len(cfg.vars) THEN "Variables"
             ELSE IF \E m \in V : cfg.vars[m].on = -1 /\ e[m] # val'[m] THEN "Constants"
             ELSE IF \E m \in V : Len(e[m]) # Len(val'[m]) THEN "Shape"
             ELSE IF e # val' THEN "Values" ELSE ""
TraceNext == /\ fail = "" /\ i < Len(T[tid].ev) /\ DataStep
             /\ fail' = Clause(T[tid].ev[i + 1]) /\ UNCHANGED tid
Done == fail # "" \/ i = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> i, fail |-> fail, exp |-> val]))
================================================================================
