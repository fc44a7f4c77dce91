------------------------------ MODULE Conditional ------------------------------
(* Conditional computation: an inner stateful module driven by events.  With      *)
(* cfg.frozen the inner module is only called at events (Haiku UpdateOnEvent);    *)
(* otherwise it is called at every step and only its output is held (Flax).       *)
(* An input is <<event, value, second event>>; the second event is used by the    *)
(* nested conditional module.  `seen` is used by the properties only.             *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, inner, held, out, seen
vars == <<cfg, inner, held, out, seen>>
\* inner modules: each is a state and a step function
\*   count: number of calls            lag: value of the previous call
\*   sum: total and last input         ewma: recursive average, alpha = 1/2, started at the first value
\*   nest: lag of the ewma             pair: a pair of outputs (count, value)
\*   cond: itself a conditional count, on the second event
Init0(c) == [n |-> 0, prev |-> NaN, tot |-> Zero, avg |-> NaN, pavg |-> NaN, held2 |-> c.init]
K(c) == IF c.kind = "pair" THEN 2 ELSE 1
Start(c) == inner = Init0(c) /\ held = [i \in 1..K(c) |-> c.init] /\ out = <<>> /\ seen = <<>>
Half(a, b) == Div(Add(a, b), I(2))
Call(s, x) ==
  LET v == x[2]
      a == IF s.n = 0 \/ cfg.kind \notin {"ewma", "nest"} THEN v ELSE Half(s.avg, v)
      c2 == x[3] # Zero
  IN  [n |-> IF cfg.kind = "cond" /\ cfg.frozen /\ ~c2 THEN s.n ELSE s.n + 1,
       prev |-> v, tot |-> Add(s.tot, v), avg |-> a, pavg |-> s.avg,
       held2 |-> IF cfg.kind = "cond" /\ c2 THEN I(s.n + 1) ELSE s.held2]
Out(s, t) ==  \* state before, after
  CASE cfg.kind = "count" -> <<I(t.n)>>
    [] cfg.kind = "lag"   -> <<s.prev>>
    [] cfg.kind = "sum"   -> <<t.tot>>
    [] cfg.kind = "ewma"  -> <<t.avg>>
    [] cfg.kind = "nest"  -> <<t.pavg>>
    [] cfg.kind = "pair"  -> <<I(t.n), t.prev>>
    [] OTHER              -> <<t.held2>>
Step(x) ==
  LET e == x[1] # Zero
      t == Call(inner, x)
  IN  /\ seen' = Append(seen, x) /\ UNCHANGED cfg
      /\ inner' = IF e \/ ~cfg.frozen THEN t ELSE inner
      /\ held' = IF e THEN Out(inner, t) ELSE held
      /\ out' = held'
-------------------------------------------------------------------------------
(* The same outputs, defined on the whole history                                *)
N == Len(seen)
E(k) == seen[k][1] # Zero
Calls == IF cfg.frozen THEN SelectSeq(seen, LAMBDA x : x[1] # Zero) ELSE seen
LastEvent == LET S == {k \in 1..N : E(k)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
\* the calls made to the inner module up to and including the last event
CallsAt == IF cfg.frozen THEN Calls ELSE SubSeq(seen, 1, LastEvent)
RECURSIVE Avg(_)
Avg(s) == IF Len(s) = 1 THEN s[1][2] ELSE Half(Avg(SubSeq(s, 1, Len(s) - 1)), s[Len(s)][2])
V(s) == [k \in 1..Len(s) |-> s[k][2]]
Cond(s) == LET t == SelectSeq(s, LAMBDA x : x[3] # Zero)
               last == CHOOSE k \in 1..Len(s) : s[k][3] # Zero /\ \A j \in (k + 1)..Len(s) : s[j][3] = Zero
           IN  IF t = <<>> THEN cfg.init ELSE IF cfg.frozen THEN I(Len(t)) ELSE I(last)
FromHistory ==
  N > 0 => IF LastEvent = 0 THEN out = [i \in 1..K(cfg) |-> cfg.init]
           ELSE LET s == CallsAt  n == Len(s) IN
             out = CASE cfg.kind = "count" -> <<I(n)>>
                     [] cfg.kind = "lag"   -> <<IF n = 1 THEN NaN ELSE s[n - 1][2]>>
                     [] cfg.kind = "sum"   -> <<SumSeq(V(s))>>
                     [] cfg.kind = "ewma"  -> <<Avg(s)>>
                     [] cfg.kind = "nest"  -> <<IF n = 1 THEN NaN ELSE Avg(SubSeq(s, 1, n - 1))>>
                     [] cfg.kind = "pair"  -> <<I(n), s[n][2]>>
                     [] OTHER              -> <<Cond(s)>>
\* without event neither the output nor (when frozen) the inner state changes
Hold == [][\A i \in 1..1 : (Len(seen') > Len(seen) /\ seen'[Len(seen')][1] = Zero)
             => (held' = held /\ (cfg.frozen => inner' = inner))]_vars
===============================================================================
