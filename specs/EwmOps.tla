-------------------------------- MODULE EwmOps --------------------------------
(* The exponentially weighted mean as a state machine over exact rationals.      *)
(* Options c: alpha, adjust ("true"|"false"|"linear"), ignore, init, minp.       *)
(* State s: mean, wt (weight of the past relative to the next value), nobs.      *)
EXTENDS Integers, Sequences, Num
Com(c)  == Sub(Div(One, c.alpha), One)
Beta(c) == Sub(One, c.alpha)
EwStart(c) == [mean |-> c.init, wt |-> One, nobs |-> 0, eff |-> Zero]
NewWt(c) == IF c.adjust = "false" THEN c.alpha ELSE One

\* weight of the past after one more position
Decay(c, s, obs) ==
  IF IsNaN(s.mean) THEN Zero
  ELSE IF c.adjust = "linear"
       THEN LET cap == MinQ(s.wt, Com(c))
                lin == IF s.wt = Zero THEN Zero ELSE MaxQ(Zero, Div(Sub(s.wt, One), s.wt))
            IN  IF obs \/ c.ignore THEN cap ELSE Mul(cap, lin)
       ELSE IF obs \/ ~c.ignore THEN Mul(s.wt, Beta(c)) ELSE s.wt
\* a value arrives
EwObs(c, s, x) ==
  LET w == Decay(c, s, TRUE)
      n == NewWt(c)
      m == IF w = Zero THEN x ELSE Div(Add(Mul(w, s.mean), Mul(n, x)), Add(w, n))
  IN  [mean |-> m, wt |-> IF c.adjust = "false" THEN One ELSE Add(w, n), nobs |-> s.nobs + 1, eff |-> Div(w, n)]
\* nothing arrives
EwMiss(c, s) == LET w == Decay(c, s, FALSE) IN [mean |-> s.mean, wt |-> w, nobs |-> s.nobs, eff |-> Div(w, NewWt(c))]
EwStep(c, s, x) == IF IsNaN(x) THEN EwMiss(c, s) ELSE EwObs(c, s, x)
EwOut(c, s) == IF s.nobs >= c.minp THEN s.mean ELSE NaN
-------------------------------------------------------------------------------
(* The definition on the whole history h (a sequence of numbers, NaN = missing)  *)
ObsIdx(h) == {k \in 1..Len(h) : ~IsNaN(h[k])}
NObs(h) == Cardinality(ObsIdx(h))
\* age of position k (0 stands for the initial value): positions, or values, seen after it
Age(c, h, k) == IF c.ignore THEN Cardinality({j \in ObsIdx(h) : j > k}) ELSE Len(h) - k
Weighted(c, h) ==                                    \* adjust = true
  LET K  == ObsIdx(h) \cup (IF IsNaN(c.init) THEN {} ELSE {0})
      V(k) == IF k = 0 THEN c.init ELSE h[k]
      newest == CHOOSE k \in K : \A j \in K : j <= k
      W(k) == Pow(Beta(c), Age(c, h, k) - Age(c, h, newest))   \* weights up to a common factor
      RECURSIVE S(_, _)
      S(k, f) == IF k < 0 THEN Zero
                 ELSE Add(S(k - 1, f), IF k \in K THEN (IF f THEN Mul(W(k), V(k)) ELSE W(k)) ELSE Zero)
  IN  IF K = {} THEN NaN ELSE Div(S(Len(h), TRUE), S(Len(h), FALSE))
\* adjust = false: from one value to the next, the older one has weight beta^gap and the newer alpha
RECURSIVE Recursive(_, _)
Recursive(c, h) ==
  IF ObsIdx(h) = {} THEN c.init
  ELSE LET k == CHOOSE i \in ObsIdx(h) : \A j \in ObsIdx(h) : j <= i
           pre == SubSeq(h, 1, k - 1)
           P == ObsIdx(pre)
           last == IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
           y == Recursive(c, pre)
           w == Pow(Beta(c), IF c.ignore THEN 1 ELSE k - last)
       IN  IF IsNaN(y) THEN h[k]
           ELSE Div(Add(Mul(w, y), Mul(c.alpha, h[k])), Add(w, c.alpha))
\* linear without missing values: the plain mean until the nominal centre of mass is reached
RECURSIVE LinearFull(_, _)
LinearFull(c, h) ==
  IF h = <<>> THEN c.init
  ELSE LET n == Len(h) + (IF IsNaN(c.init) THEN 0 ELSE 1)
           y == LinearFull(c, SubSeq(h, 1, Len(h) - 1))
           w == MinQ(I(n - 1), Com(c))
       IN  IF w = Zero THEN h[Len(h)] ELSE Div(Add(Mul(w, y), h[Len(h)]), Add(w, One))
EwDefined(c, h) == ~(c.adjust = "linear" /\ ~c.ignore /\ NObs(h) # Len(h))
EwHistory(c, h) ==
  LET m == IF c.adjust = "true" THEN Weighted(c, h)
           ELSE IF c.adjust = "false" THEN Recursive(c, h)
           ELSE LinearFull(c, SelectSeq(h, LAMBDA v : ~IsNaN(v)))
  IN  IF NObs(h) >= c.minp THEN m ELSE NaN
===============================================================================
