-------------------------------- MODULE MCLift --------------------------------
EXTENDS Lift, TLC, Json
CONSTANTS Vals, MaxB, MaxT
VARIABLE hist
Steps == UNION {[1..t -> [1..b -> Vals]] : t \in 1..MaxT, b \in 1..MaxB}
Configs == {c \in [kind : {"acc", "par", "sx0"}, skip : BOOLEAN, steps : Steps] : c.skip => Len(c.steps) > 1}
MCInit == cfg \in Configs /\ pos = 0 /\ par = Start(cfg).par /\ st = Start(cfg).st /\ out = <<>> /\ hist = <<>>
MCStep == BatchStep /\ hist' = Append(hist, [y |-> out', st |-> st'])
Spec == MCInit /\ [][MCStep]_<<vars, hist>>
Emit == pos = Len(Rows) => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
