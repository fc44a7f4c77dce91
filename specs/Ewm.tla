---------------------------------- MODULE Ewm ----------------------------------
(* EWMA: one Observe or Miss per step.                                           *)
EXTENDS EwmOps
VARIABLES cfg, s, out, seen
vars == <<cfg, s, out, seen>>
Start(c) == s = EwStart(c) /\ out = <<>> /\ seen = <<>>
Show(t) == IF cfg.info THEN <<EwOut(cfg, t), t.eff, I(t.nobs)>> ELSE <<EwOut(cfg, t)>>
Observe(x) == /\ ~IsNaN(x)
              /\ s' = EwObs(cfg, s, x) /\ out' = Show(s') /\ seen' = Append(seen, x) /\ UNCHANGED cfg
Miss == s' = EwMiss(cfg, s) /\ out' = Show(s') /\ seen' = Append(seen, NaN) /\ UNCHANGED cfg
-------------------------------------------------------------------------------
\* the output is the weighted average of the history
FromHistory == (seen # <<>> /\ EwDefined(cfg, seen)) => out[1] = EwHistory(cfg, seen)
\* a mean lies between the extremes of what it averages
Convex == LET V == {seen[k] : k \in ObsIdx(seen)} \cup (IF IsNaN(cfg.init) THEN {} ELSE {cfg.init})
          IN  (seen # <<>> /\ ~IsNaN(out[1])) => /\ \E v \in V : Le(v, out[1])
                                                 /\ \E v \in V : Le(out[1], v)
\* missing exactly while fewer than min_periods values (or nothing at all) were seen
MissingExactly == seen # <<>> => (IsNaN(out[1]) <=> (NObs(seen) < cfg.minp \/ (NObs(seen) = 0 /\ IsNaN(cfg.init))))
================================================================================
