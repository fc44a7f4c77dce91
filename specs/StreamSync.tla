------------------------------ MODULE StreamSync ------------------------------
(* Synchronisation of secondary streams on a local time (wax.stream.Stream).    *)
(*                                                                              *)
(* A configuration is a local time line and a set of secondary streams, each    *)
(* with its time line and its mode:                                             *)
(*   times  non-decreasing sequence of integer ticks                            *)
(*   period 0, or the number of ticks of the frequency on which the local time  *)
(*          is floored before being compared with this stream                   *)
(*   maxlen 0: only the last observation is kept;  n > 0: buffer of n           *)
(*   ffill  hold the last output when a local step brings no new observation    *)
(* One action = one local step: the generator yields the local observation and  *)
(* pulls each secondary stream up to the (embedded) local time.                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg, i, st, out
vars == <<cfg, i, st, out>>

Missing == -1        \* "no observation": the implementation's init value

Embed(s, t) == IF s.period = 0 THEN t ELSE (t \div s.period) * s.period

Fill(s)  == IF s.maxlen = 0 THEN <<Missing>> ELSE [k \in 1..s.maxlen |-> Missing]

\* per-stream state: cursor (number of observations read), deque, held output
Start(s) == [cur |-> 0, buf |-> <<>>, hold |-> Fill(s)]

Push(s, buf, k) == IF s.maxlen = 0 THEN <<k>>
                   ELSE LET b == Append(buf, k)
                        IN  IF Len(b) > s.maxlen THEN Tail(b) ELSE b

Pad(s, buf) == IF s.maxlen = 0 THEN buf
               ELSE [k \in 1..(s.maxlen - Len(buf)) |-> Missing] \o buf

\* pull, one observation after the other, while the next one is before the horizon
RECURSIVE Pull(_, _, _, _)
Pull(s, cur, buf, horizon) ==
  IF cur < Len(s.times) /\ s.times[cur + 1] < horizon
  THEN Pull(s, cur + 1, Push(s, buf, cur), horizon)     \* observation number cur, from 0
  ELSE [cur |-> cur, buf |-> buf]

Sync(s, z, t) ==
  LET p == Pull(s, z.cur, z.buf, Embed(s, t))
      o == IF p.cur > z.cur THEN Pad(s, p.buf) ELSE z.hold
  IN  [out |-> o,
       st  |-> [cur |-> p.cur, buf |-> p.buf, hold |-> IF s.ffill THEN o ELSE z.hold]]

Init0(c) == [k \in 1..Len(c.sec) |-> Start(c.sec[k])]

LocalStep ==
  /\ i < Len(cfg.local)
  /\ i' = i + 1
  /\ LET r == [k \in 1..Len(cfg.sec) |-> Sync(cfg.sec[k], st[k], cfg.local[i + 1])]
     IN  /\ st'  = [k \in 1..Len(cfg.sec) |-> r[k].st]
         /\ out' = [k \in 1..Len(cfg.sec) |-> r[k].out]
  /\ UNCHANGED cfg

Next == LocalStep

-------------------------------------------------------------------------------
(* The properties, stated without the cursor, the deque or the held output.     *)
Streams == 1..Len(cfg.sec)

\* observations that causality allows at local step n (the numbers start at 0)
Visible(s, n) == IF n = 0 THEN {}
                 ELSE {k \in 0..(Len(s.times) - 1) : s.times[k + 1] < Embed(s, cfg.local[n])}

\* C1: whatever is delivered was observed strictly before the (floored) local time
Causality == i > 0 => \A k \in Streams : \A p \in 1..Len(out[k]) :
                 out[k][p] # Missing => out[k][p] \in Visible(cfg.sec[k], i)

\* C2: nothing visible is skipped: the newest visible observation ends the output
LastN(V, n) == LET m == Cardinality(V) IN       \* V is always an initial segment 0..m-1
                 [p \in 1..n |-> IF m - n + p - 1 >= 0 THEN m - n + p - 1 ELSE Missing]
Declared(s) ==
  LET n == IF s.maxlen = 0 THEN 1 ELSE s.maxlen
      V == Visible(s, i)
      W == Visible(s, i - 1)
  IN  IF V = {} \/ (~s.ffill /\ V = W) THEN Fill(s) ELSE LastN(V, n)
ExactWindow == i > 0 => \A k \in Streams : out[k] = Declared(cfg.sec[k])

\* C3: a buffer holds each observation at most once, oldest first
NoDuplicates == i > 0 => \A k \in Streams : \A p, q \in 1..Len(out[k]) :
                 (p < q /\ out[k][p] # Missing) => out[k][p] < out[k][q]

\* C4: the visible observations only grow, whatever the other streams do
Monotone == [][\A k \in Streams : st'[k].cur >= st[k].cur]_vars
===============================================================================
