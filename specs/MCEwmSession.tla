----------------------------- MODULE MCEwmSession -----------------------------
EXTENDS EwmSession, TLC, Json
CONSTANTS Alphas, Inits, MinPs, Vals, MaxChunk, Calls
VARIABLE hist
Configs == [alpha : Alphas, adjust : {"true", "false", "linear"}, ignore : BOOLEAN, init : Inits, minp : MinPs]
Chunks == UNION {[1..n -> Vals] : n \in 1..MaxChunk}
MCInit == cfg \in Configs /\ Start(cfg) /\ hist = <<>>
MCCall == /\ Len(saved) <= Calls
          /\ \E k \in 1..Len(saved), c \in Chunks :
                /\ Call(k, c)
                /\ hist' = Append(hist, [k |-> k - 1, x |-> c, y |-> out'])
Spec == MCInit /\ [][MCCall]_<<vars, hist>>
Emit == Len(saved) = Calls + 1 => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
