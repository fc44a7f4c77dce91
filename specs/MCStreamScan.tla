----------------------------- MODULE MCStreamScan -----------------------------
EXTENDS StreamScan, TLC, Json
CONSTANTS T, Kinds, Vals
VARIABLE hist
MCInit == /\ cfg \in [kind : Kinds, reset : BOOLEAN, auto : BOOLEAN, x0 : {I(3)}]
          /\ Start(cfg) /\ hist = <<>>
Rs == IF cfg.reset THEN {Zero, One} ELSE {Zero}
Log(x) == hist' = Append(hist, [x |-> x, y |-> out'])
MCApply == N < T /\ \E v \in Vals : Apply(v) /\ Log(<<Zero, v, Zero>>)
MCStart == N < T /\ \E v \in Vals : \E r \in Rs : StartScan(v, r) /\ Log(<<One, v, r>>)
MCContinue == N < T /\ \E v \in Vals : \E r \in Rs : Continue(v, r) /\ Log(<<I(2), v, r>>)
MCNext == MCApply \/ MCStart \/ MCContinue
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == N = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
