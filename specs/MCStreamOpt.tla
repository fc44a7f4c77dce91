------------------------------ MODULE MCStreamOpt ------------------------------
EXTENDS StreamOpt, TLC, Json
CONSTANTS T
VARIABLE hist
MCInit == /\ cfg \in [kind : {"id", "sum"}, one : BOOLEAN, aux : BOOLEAN, lr : {Q(1, 4)}, mu : {Zero, Q(1, 2)}, x0 : {<<I(1), I(0)>>}]
          /\ Start(cfg) /\ hist = <<>>
MCStep == /\ N < T
          /\ \E a \in {I(1), I(-1)} : \E b \in (IF cfg.one THEN {Zero} ELSE {I(0), I(3)}) :
               Step(<<a, b>>) /\ hist' = Append(hist, [x |-> <<a, b>>, y |-> out'])
Spec == MCInit /\ [][MCStep]_<<vars, hist>>
Emit == N = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
