------------------------------- MODULE MCNewton -------------------------------
EXTENDS Newton, TLC, Json
CONSTANTS T, Layouts
VARIABLE hist
Configs == {[sizes |-> s, eps |-> e, lr |-> l, sched |-> c, raw |-> r] : s \in Layouts, e \in {One, Q(1, 2), I(3)}, l \in {Q(1, 2), I(2)}, c \in BOOLEAN, r \in {FALSE}}
           \cup {[sizes |-> s, eps |-> Q(1, 4), lr |-> One, sched |-> FALSE, raw |-> TRUE] : s \in Layouts}
RECURSIVE SumInt(_)
SumInt(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInt(Tail(s))
N == Len(hist)
Size == SumInt(cfg.sizes)
Dir == {<<I(1), I(-2), Zero, I(1)>>, <<I(2), I(1), I(-1), I(3)>>, <<Zero, Zero, I(1), I(-1)>>}
Inputs == {SubSeq(v, 1, Size) : v \in Dir}
MCInit == cfg \in Configs /\ Start /\ hist = <<>>
MCStep == /\ N < T /\ \E x \in Inputs : Step(x) /\ hist' = Append(hist, [x |-> x, y |-> out'])
Spec == MCInit /\ [][MCStep]_<<vars, hist>>
\* the update solves the system of the matrix rebuilt from all the gradients
RECURSIVE Sum(_, _)
Sum(h, k) == IF h = <<>> THEN Eye(cfg.sizes[k], cfg.eps) ELSE Plus(Outer(Part(Head(h).x, k)), Sum(Tail(h), k))
LastRate == IF cfg.raw THEN I(-1) ELSE IF cfg.sched /\ N % 2 = 0 THEN Mul(I(2), cfg.lr) ELSE cfg.lr
Solves == N > 0 => \A k \in Leaves : Times(Sum(hist, k), Part(hist[N].y, k)) = Scale(Neg(LastRate), Part(hist[N].x, k))
\* the step along the gradient is less than the learning rate, and never uphill
Bounded == N > 0 => \A k \in Leaves : LET a == Neg(Dot(Part(hist[N].x, k), Part(hist[N].y, k))) IN Le(Zero, a) \/ cfg.raw
Less == N > 0 /\ ~cfg.raw => \A k \in Leaves : Lt(Neg(Dot(Part(hist[N].x, k), Part(hist[N].y, k))), LastRate)
Emit == N = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
