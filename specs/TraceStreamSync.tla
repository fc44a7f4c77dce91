---------------------------- MODULE TraceStreamSync ----------------------------
(* Validates recorded executions: one event per local step with, per secondary   *)
(* stream, the observation numbers that the real code delivered.                 *)
EXTENDS StreamSync, TLC, Json, IOUtils
VARIABLES tid, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)

TraceInit == /\ tid \in 1..Len(T)
             /\ fail = IF Len(T[tid].ev) # Len(T[tid].cfg.local) THEN "OneOutputPerLocalStep" ELSE ""
             /\ cfg = T[tid].cfg /\ i = 0 /\ st = Init0(cfg) /\ out = <<>>

Obs(e, k) == e.out[k]
Clause(e) ==
  IF Len(e.out) # Len(cfg.sec) THEN "OneOutputPerStream"
  ELSE IF \E k \in Streams : \E p \in 1..Len(Obs(e, k)) :
            Obs(e, k)[p] # Missing /\ Obs(e, k)[p] \notin Visible(cfg.sec[k], i + 1)
       THEN "Causality"
  ELSE IF \E k \in Streams : Len(Obs(e, k)) # Len(out'[k]) THEN "WindowLength"
  ELSE IF \E k \in Streams : \E p, q \in 1..Len(Obs(e, k)) :
            p < q /\ Obs(e, k)[p] # Missing /\ Obs(e, k)[p] >= Obs(e, k)[q]
       THEN "NoDuplicates"
  ELSE IF e.out # out' THEN "ExactWindow"
  ELSE IF e.local # i' - 1 THEN "LocalOrder"
  ELSE ""

TraceNext == /\ fail = "" /\ i < Len(T[tid].ev)
             /\ LocalStep
             /\ fail' = Clause(T[tid].ev[i + 1])
             /\ UNCHANGED tid

Done == fail # "" \/ i = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> i, fail |-> fail, exp |-> out]))
================================================================================
