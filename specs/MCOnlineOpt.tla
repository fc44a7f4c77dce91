------------------------------ MODULE MCOnlineOpt ------------------------------
EXTENDS OnlineOpt, TLC, Json
CONSTANTS T, Dev
VARIABLE hist
\* api and what it lets see; every configuration differs from the base in at most Dev settings
Apis == {[api |-> "hkonline", seen |-> "params"], [api |-> "hkfunc", seen |-> "trainable"], [api |-> "hklearner", seen |-> "params"],
         [api |-> "fxonline", seen |-> "both"], [api |-> "fxfunc", seen |-> "grads"], [api |-> "fxlearner", seen |-> "grads"], [api |-> "given", seen |-> "initial"]}
One1(b) == IF b THEN 1 ELSE 0
All(a, t, l, o, r, k, s, v, c0) ==
  [api |-> a.api, seen |-> a.seen, loss |-> l, train |-> t, opt |-> o, lr |-> Q(1, 2), d |-> Q(1, 2), rho |-> r, clip |-> k,
   st |-> s, nan |-> v, p0 |-> <<I(1), I(-1), I(2)>>, c0 |-> c0,
   regall |-> a.api = "fxonline"]
Online == {"hkonline", "fxonline"}
Fits(g) ==
  /\ (g.rho # Zero \/ g.clip # Zero) => g.api \in Online
  \* the initialisation of a Flax model is its first evaluation
  /\ (g.c0 = 1) => (g.st /\ g.api \in {"fxonline", "fxfunc", "fxlearner"})
  /\ (g.st /\ g.api \in {"fxfunc", "fxlearner"}) => g.c0 = 1
  /\ (g.nan = "keep") => g.api \in {"hkfunc", "hklearner", "given"}
  /\ g.api = "given" => g.opt = "sgd"
  /\ g.api = "hklearner" => g.train = <<TRUE, TRUE, TRUE>>
  /\ One1(g.train # <<TRUE, TRUE, TRUE>>) + One1(g.loss # "quad") + One1(g.opt # "sgd") + One1(g.rho # Zero)
     + One1(g.clip # Zero) + One1(g.st) + One1(g.nan = "keep") <= Dev
Configs ==
  {g \in {All(a, t, l, o, r, k, s, v, c0) : a \in Apis, t \in BOOLEAN \X BOOLEAN \X BOOLEAN, l \in {"quad", "lin"},
          o \in {"sgd", "mom", "sched", "decay"}, r \in {Zero, One}, k \in {Zero, Q(3, 2)}, s \in BOOLEAN, v \in {"zero", "keep"}, c0 \in 0..1} : Fits(g)}
N == Len(hist)
Z == <<Zero, Zero, Zero>>
Data == {<<I(1), Zero, I(2), I(1)>>, <<I(-1), I(2), I(1), Zero>>, <<NaN, I(1), I(1), I(1)>>}
        \cup (IF cfg.api \in Online THEN {} ELSE {<<I(1), PInf, Zero, I(1)>>})
Inputs == IF cfg.api = "given" THEN {x \o g : x \in Data, g \in {<<I(2), I(1), I(-1)>>, <<Zero, NaN, I(1)>>}} ELSE {x \o Z : x \in Data}
MCInit == cfg \in Configs /\ Start /\ hist = <<>>
MCStep == /\ N < T /\ \E x \in Inputs : Step(x) /\ hist' = Append(hist, [x |-> x, y |-> out'])
Spec == MCInit /\ [][MCStep]_<<vars, hist>>
\* with plain steps and no projection the parameters are the initial ones minus the sum of the steps
RECURSIVE Steps(_, _)
Steps(h, k) == IF h = <<>> THEN Zero ELSE Add(Head(h).y[5 + k], Steps(Tail(h), k))
Telescopes == (cfg.seen = "both" /\ cfg.opt = "sgd" /\ cfg.clip = Zero /\ cfg.train = <<TRUE, TRUE, TRUE>>) =>
                \A k \in K : p[k] = Sub(cfg.p0[k], Mul(cfg.lr, Steps(hist, k)))
\* a step predicts with the parameters the previous one left
Earlier == cfg.seen \in {"params", "both"} =>
             \A t \in 2..N : hist[t].y[2] = Add(SumSeq([k \in K |-> Mul(hist[t - 1].y[2 + k], hist[t].x[k])]), IF cfg.st THEN I(cfg.c0 + t - 1) ELSE Zero)
Emit == N = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
