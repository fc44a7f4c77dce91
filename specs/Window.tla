-------------------------------- MODULE Window --------------------------------
(* Buffer, Lag and Diff.  `buf` is the logical window (oldest first); `ring`     *)
(* and `w` are the circular representation used by the Flax module; both must    *)
(* show the same window.  A module call is one Push.                             *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, buf, len, ring, w, out, seen
vars == <<cfg, buf, len, ring, w, out, seen>>

Start(c) == /\ buf = [i \in 1..c.maxlen |-> c.fill] /\ len = 0
            /\ ring = [i \in 1..c.maxlen |-> c.fill] /\ w = 0
            /\ out = <<>> /\ seen = <<>>
Out(b, n) ==
  CASE cfg.kind = "buffer" -> b
    [] cfg.kind = "state"  -> b \o <<I(n)>>            \* return_state: the window and its length
    [] cfg.kind = "lag"    -> <<b[1]>>
    [] cfg.kind = "diff"   -> <<Sub(b[cfg.maxlen], b[1])>>
Push(x) ==
  /\ buf' = Append(Tail(buf), x)
  /\ len' = IF len < cfg.maxlen THEN len + 1 ELSE len
  /\ ring' = [ring EXCEPT ![(w % cfg.maxlen) + 1] = x]
  /\ w' = w + 1
  /\ out' = Out(buf', len')
  /\ seen' = Append(seen, x)
  /\ UNCHANGED cfg
-------------------------------------------------------------------------------
\* the window, from the history alone
At(i) == LET k == Len(seen) - cfg.maxlen + i IN IF k >= 1 THEN seen[k] ELSE cfg.fill
LastMaxlen == buf = [i \in 1..cfg.maxlen |-> At(i)]
Length     == len = (IF Len(seen) < cfg.maxlen THEN Len(seen) ELSE cfg.maxlen)
RingShows  == buf = [i \in 1..cfg.maxlen |-> ring[((w + i - 1) % cfg.maxlen) + 1]]
LagExact   == (cfg.kind = "lag" /\ seen # <<>>) =>
                 LET k == Len(seen) - (cfg.maxlen - 1) IN out = <<IF k >= 1 THEN seen[k] ELSE cfg.fill>>
===============================================================================
