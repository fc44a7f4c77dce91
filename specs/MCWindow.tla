------------------------------- MODULE MCWindow -------------------------------
EXTENDS Window, TLC, Json
CONSTANTS Vals, MaxLen, T
VARIABLE hist
Configs == {c \in [kind : {"buffer", "state", "lag", "diff"}, maxlen : 1..MaxLen, fill : {NaN, I(-7)}] :
              c.kind = "diff" => (c.maxlen = 2 /\ c.fill = NaN)}
MCInit == cfg \in Configs /\ Start(cfg) /\ hist = <<>>
MCPush == /\ Len(seen) < T
          /\ \E x \in Vals : Push(x) /\ hist' = Append(hist, [x |-> <<x>>, y |-> out'])
Spec == MCInit /\ [][MCPush]_<<vars, hist>>
Emit == Len(seen) = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
