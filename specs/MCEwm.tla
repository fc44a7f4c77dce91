--------------------------------- MODULE MCEwm ---------------------------------
EXTENDS Ewm, TLC, Json
CONSTANTS Alphas, Inits, MinPs, Vals, T, Infos
VARIABLE hist
Configs == [alpha : Alphas, adjust : {"true", "false", "linear"}, ignore : BOOLEAN, init : Inits, minp : MinPs, info : Infos]
MCInit == cfg \in Configs /\ Start(cfg) /\ hist = <<>>
MCObserve == /\ Len(seen) < T
             /\ \E x \in Vals : Observe(x) /\ hist' = Append(hist, [x |-> <<x>>, y |-> out'])
MCMiss == Len(seen) < T /\ Miss /\ hist' = Append(hist, [x |-> <<NaN>>, y |-> out'])
Spec == MCInit /\ [][MCObserve \/ MCMiss]_<<vars, hist>>
Emit == Len(seen) = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
================================================================================
