-------------------------------- MODULE MCOhlc --------------------------------
EXTENDS Ohlc, TLC, Json
CONSTANTS T, Vals
VARIABLE hist
MCInit == cfg = [kind |-> "ohlc"] /\ Start /\ hist = <<>>
Value == /\ N < T /\ \E v \in Vals \ {NaN} : Step(<<v, Zero>>) /\ hist' = Append(hist, [x |-> <<v, Zero>>, y |-> out'])
Missing == /\ N < T /\ Step(<<NaN, Zero>>) /\ hist' = Append(hist, [x |-> <<NaN, Zero>>, y |-> out'])
Reset == /\ N < T /\ \E v \in Vals : Step(<<v, One>>) /\ hist' = Append(hist, [x |-> <<v, One>>, y |-> out'])
MCNext == Value \/ Missing \/ Reset
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == N = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
