--------------------------------- MODULE Ohlc ---------------------------------
(* Open-High-Low-Close binning.  A step carries a value (or a missing one) and a *)
(* reset flag: a reset opens a new bin, to which the value of the step belongs.  *)
(* `seen` is the history, used by the properties only.                           *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, bin, out, seen
vars == <<cfg, bin, out, seen>>
Empty == [open |-> NaN, high |-> NaN, low |-> NaN, close |-> NaN]
Start == bin = Empty /\ out = <<>> /\ seen = <<>>
Push(b, v) ==
  IF IsNaN(v) THEN b
  ELSE IF IsNaN(b.open) THEN [open |-> v, high |-> v, low |-> v, close |-> v]
  ELSE [open |-> b.open, high |-> MaxQ(b.high, v), low |-> MinQ(b.low, v), close |-> v]
Step(x) ==
  /\ seen' = Append(seen, x) /\ UNCHANGED cfg
  /\ bin' = Push(IF x[2] # Zero THEN Empty ELSE bin, x[1])
  /\ out' = <<bin'.open, bin'.high, bin'.low, bin'.close>>
-------------------------------------------------------------------------------
N == Len(seen)
Opened == LET S == {k \in 1..N : seen[k][2] # Zero}
          IN  IF S = {} THEN 1 ELSE CHOOSE k \in S : \A j \in S : j <= k
Obs == {k \in Opened..N : ~IsNaN(seen[k][1])}
V(k) == seen[k][1]
\* the bin holds exactly the observations made since it was opened
FromHistory ==
  N > 0 => IF Obs = {} THEN out = <<NaN, NaN, NaN, NaN>>
           ELSE /\ out[1] = V(CHOOSE k \in Obs : \A j \in Obs : k <= j)
                /\ out[4] = V(CHOOSE k \in Obs : \A j \in Obs : j <= k)
                /\ \A k \in Obs : Le(V(k), out[2]) /\ Le(out[3], V(k))
                /\ \E k \in Obs : V(k) = out[2]
                /\ \E k \in Obs : V(k) = out[3]
Ordered == N > 0 /\ ~IsNaN(out[1]) => \A i \in {1, 4} : Le(out[3], out[i]) /\ Le(out[i], out[2])
===============================================================================
