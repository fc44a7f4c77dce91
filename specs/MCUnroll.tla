------------------------------- MODULE MCUnroll -------------------------------
EXTENDS Unroll, TLC, Json, FiniteSets
CONSTANTS Vals, MaxOne, MaxTwo, Flax
VARIABLE hist
SeqsUpTo(n) == UNION {[1..k -> Vals] : k \in 1..n}
Parts == {<<a>> : a \in SeqsUpTo(MaxOne)} \cup {<<a, b>> : a \in SeqsUpTo(MaxTwo), b \in SeqsUpTo(MaxTwo)}
Configs == {c \in [kind : Kinds, skip : BOOLEAN, gp : BOOLEAN, gs : BOOLEAN, gpar : {5}, gst : {7}, consumes : {Flax}, keys : {"split", "const", "seq"}, parts : Parts] :
              /\ c.skip => Len(c.parts[1]) > 1
              /\ c.gp # c.gs => Len(c.parts) = 1
              /\ Flax => c.keys = "split"
              /\ c.keys # "split" => c.kind \in Keyed}
MCInit == /\ cfg \in Configs /\ call = 0 /\ pos = -1 /\ par = 0 /\ st = 0 /\ key = <<>>
          /\ out = [y |-> 0, key |-> <<>>] /\ hist = <<>>
MCStart == StartCall /\ hist' = hist
MCStep  == Step /\ hist' = Append(hist, [e |-> "step", y |-> out'.y, key |-> out'.key, st |-> st'])
MCEnd   == EndCall /\ hist' = Append(hist, [e |-> "end", y |-> par, key |-> <<>>, st |-> st])
MCNext == MCStart \/ MCStep \/ MCEnd
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == (call = Len(cfg.parts) /\ pos = -1) => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
