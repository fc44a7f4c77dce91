------------------------------ MODULE TraceMoments ------------------------------
(* Long recorded executions of a variance (x = y) or a covariance, in fixed point:  *)
(* the average of the products less the product of the averages, which EwmCov       *)
(* proves to be the recursion of its actions (VarFromHistory) or is it (CovStep).   *)
(* ev: [x, y, z |-> <<v, missing>>] z: what the code gave; cfg.sy: units of a value *)
EXTENDS EwmFixed, Sequences, TLC, Json, IOUtils
CONSTANT Tol
VARIABLES tid, l, fail, cfg, mx, my, mxy
vars == <<cfg, mx, my, mxy>>
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == /\ tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg
             /\ mx = FxStart(cfg) /\ my = FxStart(cfg) /\ mxy = FxStart(cfg)
Ev == T[tid].ev[l + 1]
More == l < Len(T[tid].ev) /\ fail = ""
Times(a, b) == IF a[2] + b[2] > 0 THEN <<0, 1>> ELSE <<Rnd(a[1] * b[1], cfg.sy), 0>>
Less(a, b) == IF a[2] + b[2] > 0 THEN <<0, 1>> ELSE <<a[1] - b[1], 0>>
Moment(sx, sy, sxy) ==
  IF cfg.kind = "var" /\ sx.n = 0 THEN <<0, 0>>
  ELSE IF cfg.centered THEN FxOut(cfg, sxy)
  ELSE Less(FxOut(cfg, sxy), Times(FxOut(cfg, sx), FxOut(cfg, sy)))
TraceStep ==
  /\ More
  /\ mx' = FxStep(cfg, mx, Ev.x) /\ my' = FxStep(cfg, my, Ev.y) /\ mxy' = FxStep(cfg, mxy, Times(Ev.x, Ev.y))
  /\ fail' = IF Near(Ev.z, Moment(mx', my', mxy'), Tol) THEN "" ELSE "Output"
  /\ l' = l + 1 /\ UNCHANGED <<tid, cfg>>
TraceNext == TraceStep
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> Moment(mx, my, mxy)]))
==================================================================================
