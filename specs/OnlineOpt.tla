------------------------------- MODULE OnlineOpt -------------------------------
(* One optimiser step per observation (wax.modules.online_optimizer,             *)
(* func_optimizer, online_supervised_learner, update_params, their Flax twins).  *)
(* The model is linear in three parameters and may count its evaluations; the    *)
(* loss is (prediction - target)^2/2 or prediction - target.                     *)
(* An observation is <<x1, x2, x3, y, g1, g2, g3>>; the g are the parameters     *)
(* given from outside when the caller holds them (UpdateParams).                 *)
EXTENDS Integers, Sequences, Num

VARIABLES cfg,   \* api, loss, train (which parameters), opt, lr, d, rho, clip, st, nan, p0, c0
          p,     \* parameters
          m,     \* momentum of each parameter
          n,     \* optimiser steps made
          c,     \* state of the model
          out    \* what the step returned
vars == <<cfg, p, m, n, c, out>>
K == 1..3

Start == p = cfg.p0 /\ m = <<Zero, Zero, Zero>> /\ n = 0 /\ c = cfg.c0 /\ out = <<>>

\* parameters the model is evaluated with
Held(x) == [k \in K |-> IF cfg.api = "given" /\ cfg.train[k] THEN x[4 + k] ELSE p[k]]
Predict(w, x) == Add(SumSeq([k \in K |-> Mul(w[k], x[k])]), IF cfg.st THEN I(c) ELSE Zero)
Err(w, x) == Sub(Predict(w, x), x[4])
Fit(w, x) == IF cfg.loss = "quad" THEN Mul(Q(1, 2), Mul(Err(w, x), Err(w, x))) ELSE Err(w, x)
\* the parameters the regularisation is computed on: the Haiku API gives the trainable ones
Regular(w) == SumSeq([k \in K |-> IF cfg.train[k] \/ cfg.regall THEN Mul(w[k], w[k]) ELSE Zero])
Loss(w, x) == IF cfg.rho = Zero THEN Fit(w, x) ELSE Add(Fit(w, x), Mul(Mul(Q(1, 2), cfg.rho), Regular(w)))
RawGrad(w, x, k) ==
  LET g == IF cfg.loss = "quad" THEN Mul(Err(w, x), x[k]) ELSE x[k]
  IN  IF cfg.rho = Zero THEN g ELSE Add(g, Mul(cfg.rho, w[k]))
Grad(w, x, k) ==
  LET g == RawGrad(w, x, k)
  IN  IF cfg.nan = "keep" \/ IsFin(g) THEN g ELSE Zero
Rate == IF cfg.opt = "sched" /\ n % 2 = 1 THEN Mul(I(2), cfg.lr) ELSE cfg.lr
Clip(v) == IF cfg.clip = Zero \/ IsNaN(v) THEN v ELSE MaxQ(MinQ(v, cfg.clip), Neg(cfg.clip))

Pick(s) == IF cfg.train[1] THEN (IF cfg.train[2] THEN (IF cfg.train[3] THEN s ELSE <<s[1], s[2]>>)
                                 ELSE (IF cfg.train[3] THEN <<s[1], s[3]>> ELSE <<s[1]>>))
           ELSE (IF cfg.train[2] THEN (IF cfg.train[3] THEN <<s[2], s[3]>> ELSE <<s[2]>>)
                 ELSE (IF cfg.train[3] THEN <<s[3]>> ELSE <<>>))

Step(x) ==
  LET w == Held(x)
      g == [k \in K |-> IF cfg.train[k] THEN Grad(w, x, k) ELSE Zero]
      \* what the optimiser follows: the gradient, its decayed sum, or with the weight decay
      u == [k \in K |-> CASE cfg.opt = "mom" -> Add(g[k], Mul(cfg.d, m[k]))
                          [] cfg.opt = "decay" -> Add(g[k], Mul(cfg.d, w[k]))
                          [] OTHER -> g[k]]
  IN /\ p' = [k \in K |-> IF cfg.api # "given" /\ cfg.train[k] THEN Clip(Sub(w[k], Mul(Rate, u[k]))) ELSE p[k]]
     /\ m' = [k \in K |-> IF cfg.opt = "mom" /\ cfg.train[k] THEN u[k] ELSE Zero]
     /\ n' = n + 1
     /\ c' = IF cfg.st THEN c + 1 ELSE c
     /\ out' = <<Loss(w, x), Predict(w, x)>>
               \o (CASE cfg.seen = "params" -> p'
                     [] cfg.seen = "trainable" -> Pick(p')
                     [] cfg.seen = "grads" -> Pick(g)
                     [] cfg.seen = "both" -> p' \o Pick(g)
                     [] OTHER -> Pick(cfg.p0))
     /\ UNCHANGED cfg
-------------------------------------------------------------------------------
\* parameters that are not trainable, or that the caller holds, never change
Frozen == \A k \in K : (~cfg.train[k] \/ cfg.api = "given") => p[k] = cfg.p0[k]
Clipped == (cfg.clip # Zero /\ n > 0 /\ cfg.api # "given") => \A k \in K : cfg.train[k] => (IsNaN(p[k]) \/ (Le(p[k], cfg.clip) /\ Le(Neg(cfg.clip), p[k])))
Counted == (cfg.st => c = cfg.c0 + n) /\ (~cfg.st => c = cfg.c0)
Filled == cfg.nan # "keep" => \A k \in K : IsFin(p[k]) /\ IsFin(m[k])
===============================================================================
