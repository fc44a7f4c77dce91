------------------------------- MODULE TraceLift -------------------------------
EXTENDS Lift, TLC, Json, IOUtils
VARIABLES tid, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == /\ tid \in 1..Len(T) /\ cfg = T[tid].cfg /\ pos = 0 /\ out = <<>>
             /\ par = Start(cfg).par /\ st = Start(cfg).st
             /\ fail = IF Len(T[tid].ev) # Len(Rows) THEN "OneOutputPerItem" ELSE ""
Clause(e) == IF e.y # out' THEN "IndependentOutput"
             ELSE IF e.st # <<>> /\ e.st # st' THEN "IndependentState" ELSE ""
TraceNext == /\ fail = "" /\ pos < Len(T[tid].ev) /\ BatchStep
             /\ fail' = Clause(T[tid].ev[pos + 1]) /\ UNCHANGED tid
Done == fail # "" \/ pos = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> pos, fail |-> fail, exp |-> [y |-> out, st |-> st]]))
================================================================================
