------------------------------- MODULE MCEwmCov -------------------------------
EXTENDS EwmCov, TLC, Json
CONSTANTS Alphas, Inits, MinPs, TV, TC
VARIABLE hist
Base == [kind |-> "var", alpha |-> One, adjust |-> "true", ignore |-> TRUE, init |-> NaN, minp |-> 0, centered |-> FALSE, swap |-> FALSE]
Adj == {"true", "false", "linear"}
Configs == {[Base EXCEPT !.alpha = a, !.adjust = j] : a \in Alphas, j \in Adj} \cup
           {[Base EXCEPT !.kind = "cov", !.alpha = a, !.adjust = j, !.ignore = g, !.init = i, !.minp = m, !.centered = n, !.swap = w] :
              a \in Alphas, j \in Adj, g \in BOOLEAN, i \in Inits, m \in MinPs, n \in BOOLEAN, w \in BOOLEAN}
\* the options are only combined where they interact
Wanted(c) == c.kind = "var" \/ ((c.swap <=> (c.ignore # c.centered)) /\ (c.init = NaN \/ c.minp = 0))
Pairs == {<<I(4), I(1)>>, <<I(-2), I(3)>>, <<I(1), I(1)>>, <<NaN, I(2)>>, <<I(2), NaN>>, <<NaN, NaN>>}
MCInit == cfg \in {c \in Configs : Wanted(c)} /\ Start(cfg) /\ hist = <<>>
MCVar == /\ Len(seen) < TV
         /\ \E x \in {I(4), I(-2), I(1), NaN} : VarStep(x) /\ hist' = Append(hist, [x |-> <<x>>, y |-> out'])
\* the second column repeats or delays the first one
MCCov == /\ Len(seen) < TC
         /\ \E q \in Pairs : /\ \E v \in {q[1], IF seen = <<>> THEN NaN ELSE seen[Len(seen)][1]} : CovStep(q[1], v, q[2])
                             /\ hist' = Append(hist, [x |-> seen'[Len(seen')], y |-> out'])
Spec == MCInit /\ [][MCVar \/ MCCov]_<<vars, hist>>
Emit == Len(seen) = (IF cfg.kind = "var" THEN TV ELSE TC) => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
