------------------------------ MODULE TraceUnroll ------------------------------
EXTENDS Unroll, TLC, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == /\ tid \in 1..Len(T) /\ l = 0 /\ fail = ""
             /\ cfg = T[tid].cfg /\ call = 0 /\ pos = -1 /\ par = 0 /\ st = 0 /\ key = <<>>
             /\ out = [y |-> 0, key |-> <<>>]
Ev == T[tid].ev[l + 1]
More == l < Len(T[tid].ev) /\ fail = ""
Enabled == IF pos = -1 THEN (IF call < Len(cfg.parts) THEN "start" ELSE "none")
           ELSE IF pos < Len(Items(cfg, call)) THEN "step" ELSE "end"
Clause(e) ==
  CASE e.e = "step" -> IF e.y # out'.y THEN "StepOutput"
                       ELSE IF cfg.kind \in Keyed /\ e.key # out'.key THEN "KeyThreading" ELSE ""
    [] e.e = "end"  -> IF e.st # st' THEN "FinalState" ELSE IF e.par # par' THEN "ParamsConstant" ELSE ""
    [] OTHER -> ""
Adv == l' = l + 1 /\ UNCHANGED tid
TraceStart == More /\ Ev.e = "start" /\ Enabled = "start" /\ StartCall /\ fail' = "" /\ Adv
TraceStep  == More /\ Ev.e = "step" /\ Enabled = "step" /\ Step /\ fail' = Clause(Ev) /\ Adv
TraceEnd   == More /\ Ev.e = "end" /\ Enabled = "end" /\ EndCall /\ fail' = Clause(Ev) /\ Adv
TraceBad   == More /\ Ev.e # Enabled /\ fail' = "OneOutputPerItem" /\ Adv /\ UNCHANGED vars
TraceNext == TraceStart \/ TraceStep \/ TraceEnd \/ TraceBad
Done == fail # "" \/ l = Len(T[tid].ev)
Final == IF fail # "" THEN fail ELSE IF Enabled # "none" THEN "OneOutputPerItem" ELSE ""
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> Final, exp |-> [out |-> out, st |-> st]]))
================================================================================
