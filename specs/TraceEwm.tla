-------------------------------- MODULE TraceEwm --------------------------------
(* Long recorded executions of an average, in fixed point (EwmFixed).               *)
(* ev: [x |-> <<v, missing>>, y |-> <<v, missing>>], missing in {0, 1}              *)
EXTENDS EwmFixed, Sequences, TLC, Json, IOUtils
CONSTANT Tol
VARIABLES tid, l, fail, cfg, s
vars == <<cfg, s>>
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == /\ tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg /\ s = FxStart(cfg)
Ev == T[tid].ev[l + 1]
More == l < Len(T[tid].ev) /\ fail = ""
Answer == /\ fail' = IF Near(Ev.y, FxOut(cfg, s'), Tol) THEN "" ELSE "EwmOutput"
          /\ l' = l + 1 /\ UNCHANGED <<tid, cfg>>
TraceObserve == More /\ Ev.x[2] = 0 /\ s' = FxObs(cfg, s, Ev.x[1]) /\ Answer
TraceMiss == More /\ Ev.x[2] = 1 /\ s' = FxMiss(cfg, s) /\ Answer
TraceNext == TraceObserve \/ TraceMiss
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> FxOut(cfg, s)]))
==================================================================================
