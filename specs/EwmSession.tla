------------------------------ MODULE EwmSession ------------------------------
(* Resumable front ends of EWMA: each call consumes a chunk of values from a      *)
(* saved state (the fresh one or any state returned by an earlier call) and        *)
(* returns the outputs and a new state.  Saved states are never modified.         *)
EXTENDS EwmOps
VARIABLES cfg, saved, out
vars == <<cfg, saved, out>>
RECURSIVE Run(_, _, _, _)
Run(c, s, xs, ys) == IF xs = <<>> THEN [s |-> s, y |-> ys]
                     ELSE LET t == EwStep(c, s, Head(xs)) IN Run(c, t, Tail(xs), Append(ys, EwOut(c, t)))
Start(c) == saved = <<[s |-> EwStart(c), h |-> <<>>]>> /\ out = <<>>
Call(k, chunk) ==
  /\ k \in 1..Len(saved)
  /\ LET r == Run(cfg, saved[k].s, chunk, <<>>)
     IN  out' = r.y /\ saved' = Append(saved, [s |-> r.s, h |-> saved[k].h \o chunk])
  /\ UNCHANGED cfg
\* every saved state stands for the history it was reached by
StateIsHistory == \A k \in 1..Len(saved) :
   LET h == saved[k].h IN EwDefined(cfg, h) => EwOut(cfg, saved[k].s) = (IF h = <<>> THEN (IF cfg.minp = 0 THEN cfg.init ELSE NaN) ELSE EwHistory(cfg, h))
===============================================================================
