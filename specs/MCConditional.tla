----------------------------- MODULE MCConditional -----------------------------
EXTENDS Conditional, TLC, Json
CONSTANTS T, TC, Kinds, Inits, Vals
VARIABLE hist
Configs == {[kind |-> k, frozen |-> f, init |-> i] : k \in Kinds, f \in BOOLEAN, i \in Inits}
MCInit == cfg \in Configs /\ Start(cfg) /\ hist = <<>>
Max == IF cfg.kind = "cond" THEN TC ELSE T
Second == IF cfg.kind = "cond" THEN {Zero, One} ELSE {Zero}
Values == IF cfg.kind \in {"cond", "count"} THEN {I(2)} ELSE Vals
Event == /\ N < Max /\ \E v \in Values : \E s \in Second : Step(<<One, v, s>>) /\ hist' = Append(hist, [x |-> <<One, v, s>>, y |-> out'])
NoEvent == /\ N < Max /\ \E v \in Values : \E s \in Second : Step(<<Zero, v, s>>) /\ hist' = Append(hist, [x |-> <<Zero, v, s>>, y |-> out'])
MCNext == Event \/ NoEvent
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == N = Max => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
