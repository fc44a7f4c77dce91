------------------------------- MODULE EwmFixed -------------------------------
(* The recursion of EwmOps in fixed point arithmetic, for long recorded           *)
(* executions.  Weights are in units of 1/SW and values in units of 1/SY; the     *)
(* rounding of a step is contracted by the next ones.                             *)
EXTENDS Integers
SW == 8192
Abs(x) == IF x < 0 THEN -x ELSE x
Rnd(n, d) == IF n >= 0 THEN (n + (d \div 2)) \div d ELSE -((-n + (d \div 2)) \div d)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* alpha = c.a[1]/c.a[2]; com = (d - n)/n
AW(c)   == Rnd(SW * c.a[1], c.a[2])
ComW(c) == Rnd(SW * (c.a[2] - c.a[1]), c.a[1])
Beta(c, w) == Rnd(w * (c.a[2] - c.a[1]), c.a[2])
\* m: the average so far, has: whether there is one, w: its weight, n: the values seen
FxStart(c) == [m |-> c.init[1], has |-> c.init[2] = 0, w |-> SW, n |-> 0]
Decay(c, s, obs) ==
  IF ~s.has THEN 0
  ELSE IF c.adjust = "linear"
       THEN LET cap == Min(s.w, ComW(c))
            IN  IF obs \/ c.ignore THEN cap
                ELSE IF s.w = 0 THEN 0 ELSE Rnd(Min(cap, 65536) * (Max(0, s.w - SW) \div 8), Max(1, s.w \div 8))
       ELSE IF obs \/ ~c.ignore THEN Beta(c, s.w) ELSE s.w
FxObs(c, s, x) ==
  LET w == Decay(c, s, TRUE)
      n == IF c.adjust = "false" THEN AW(c) ELSE SW
  IN  [m |-> Rnd(w * s.m + n * x, w + n), has |-> TRUE, w |-> IF c.adjust = "false" THEN SW ELSE w + n, n |-> s.n + 1]
FxMiss(c, s) == [s EXCEPT !.w = IF s.has THEN Decay(c, s, FALSE) ELSE s.w]
\* values are <<v, 0>> or <<0, 1>> when missing
FxStep(c, s, x) == IF x[2] = 1 THEN FxMiss(c, s) ELSE FxObs(c, s, x[1])
FxOut(c, s) == IF s.n >= c.minp /\ s.has THEN <<s.m, 0>> ELSE <<0, 1>>
Near(y, e, tol) == y[2] = e[2] /\ (e[2] = 1 \/ Abs(y[1] - e[1]) <= tol)
===============================================================================
