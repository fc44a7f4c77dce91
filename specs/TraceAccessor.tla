----------------------------- MODULE TraceAccessor ----------------------------
(* One event per observation; the last one carries the description of the leaves. *)
EXTENDS Accessor, TLC, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ cfg = T[tid].cfg /\ Start(cfg) /\ fail = (IF T[tid].cfg.meta # Meta(T[tid].cfg) THEN "Labels" ELSE "")
Ev == T[tid].ev[l + 1]
TraceNext == /\ l < Len(T[tid].ev) /\ fail = ""
             /\ IF Ev.skip THEN Skip ELSE Step(Ev.x)
             /\ fail' = IF Ev.skip THEN "" ELSE IF Ev.y.lab # out'.lab THEN "TimeLabel" ELSE IF Ev.y.v # out'.v THEN "Values" ELSE ""
             /\ l' = l + 1 /\ UNCHANGED tid
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> out]))
===============================================================================
