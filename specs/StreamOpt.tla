------------------------------- MODULE StreamOpt -------------------------------
(* streaming_optimizer: a learnable scale (initially one) multiplies the output m *)
(* of the model; each call computes the loss (m * scale - target)^2 with the      *)
(* scale before the call and makes one gradient step (with momentum cfg.mu).      *)
(* The model is the input itself ("id") or a running sum ("sum").  init makes the *)
(* call for cfg.x0.  With cfg.one the target is the input itself.                 *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, scale, mom, tot, out, seen
vars == <<cfg, scale, mom, tot, out, seen>>
Sum(c, t, x) == IF c.kind = "sum" THEN Add(t, x[1]) ELSE x[1]
Target(c, x) == IF c.one THEN x[1] ELSE x[2]
Grad(c, m, s, y) == Mul(I(2), Mul(m, Sub(Mul(m, s), y)))
Mom(c, m, s, y, v) == Add(Grad(c, m, s, y), Mul(c.mu, v))
Scale(c, s, v) == Sub(s, Mul(c.lr, v))
Sq(a) == Mul(a, a)
Start(c) == LET m == Sum(c, Zero, c.x0)  v == Mom(c, m, One, Target(c, c.x0), Zero)
            IN  tot = m /\ mom = v /\ scale = Scale(c, One, v) /\ out = <<>> /\ seen = <<>>
Step(x) ==
  LET m == Sum(cfg, tot, x)
      v == Mom(cfg, m, scale, Target(cfg, x), mom)
  IN  /\ tot' = m /\ mom' = v /\ scale' = Scale(cfg, scale, v)
      /\ out' = <<Sq(Sub(Mul(m, scale), Target(cfg, x))), m>>
      /\ seen' = Append(seen, x) /\ UNCHANGED cfg
-------------------------------------------------------------------------------
N == Len(seen)
All == <<cfg.x0>> \o seen
M(k) == IF cfg.kind = "sum" THEN SumSeq([i \in 1..k |-> All[i][1]]) ELSE All[k][1]
RECURSIVE ScaleAt(_), MomAt(_)
MomAt(k) == IF k = 0 THEN Zero ELSE Mom(cfg, M(k), ScaleAt(k - 1), Target(cfg, All[k]), MomAt(k - 1))
ScaleAt(k) == IF k = 0 THEN One ELSE Scale(cfg, ScaleAt(k - 1), MomAt(k))
\* the loss of a step depends on strictly earlier steps and on its own data only
FromHistory == N > 0 => out = <<Sq(Sub(Mul(M(N + 1), ScaleAt(N)), Target(cfg, All[N + 1]))), M(N + 1)>>
===============================================================================
