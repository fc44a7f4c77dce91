-------------------------------- MODULE Tracker --------------------------------
(* The memory tracker (wax.flax.debug.memory_tracker): every interval-th request    *)
(* takes a snapshot, the last max of which are kept; steady growth over the last    *)
(* ten of them is a leak.  Memory is in MB, sizes of states are in bytes.           *)
EXTENDS Integers, Sequences
N == INSTANCE Num

VARIABLES cfg,     \* interval, max; thr: a growth above thr + 1/2 MB may be a leak
          on, count, snaps, leaks, now, start,
          y        \* what a user sees after the operation
vars == <<cfg, on, count, snaps, leaks, now, start, y>>

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Ran(s) == {s[i] : i \in 1..Len(s)}
MaxOf(s) == CHOOSE m \in Ran(s) : \A x \in Ran(s) : x <= m
MinOf(s) == CHOOSE m \in Ran(s) : \A x \in Ran(s) : x >= m
Mean(s) == N!Q(SumOf(s), Len(s))
Suffix(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))
Push(s, e, k) == Suffix(Append(s, e), k)
Mods == <<"a", "b", "m">>

\* a state: the bytes of its parameters, of its buffers, of its other variables, and of other collections;
\* a state that is not a collection of variables only has variables
Nothing == [p |-> 0, b |-> 0, v |-> 0, c |-> 0]
Snapshot(s, mod, rss, st) ==
  [step |-> s.count, mod |-> mod, rss |-> rss, delta |-> IF s.snaps = <<>> THEN 0 ELSE rss - s.snaps[Len(s.snaps)].rss,
   state |-> st.b + st.v + st.c, params |-> st.p, buffers |-> st.b]

\* least squares growth of memory over the steps: Slope(w) = Num(w) / Den(w)
Num(w) == LET n == Len(w) IN n * SumOf(Map(w, LAMBDA q : (q.step - w[1].step) * (q.rss - w[1].rss))) - SumOf(Map(w, LAMBDA q : q.step - w[1].step)) * SumOf(Map(w, LAMBDA q : q.rss - w[1].rss))
Den(w) == LET n == Len(w) IN n * SumOf(Map(w, LAMBDA q : (q.step - w[1].step) * (q.step - w[1].step))) - SumOf(Map(w, LAMBDA q : q.step - w[1].step)) * SumOf(Map(w, LAMBDA q : q.step - w[1].step))
Severity(g) == IF g > 100 THEN "critical" ELSE IF g > 50 THEN "high" ELSE IF g > 20 THEN "medium" ELSE "low"
Found(ss, thr) ==
  LET w == Suffix(ss, 10)
      g == w[Len(w)].rss - w[1].rss
  IN  IF Len(ss) < 5 \/ g <= thr \/ 200 * Num(w) <= (2 * thr + 1) * Den(w) THEN <<>>
      ELSE <<[rate |-> N!Q(Num(w), Den(w)), total |-> g, first |-> w[1].step, last |-> w[Len(w)].step, severity |-> Severity(g),
              mods |-> SelectSeq(Mods, LAMBDA m : \E i \in 1..Len(w) : w[i].mod = m)]>>

Kept(c, s, k) == [count |-> c, snaps |-> s, leaks |-> k]
State == Kept(count, snaps, leaks)
\* a request for a snapshot; answers whether one was taken
Due(s, force) == on /\ (force \/ (s.count + 1) % cfg.interval = 0)
Asked(s, mod, rss, st, force) ==
  IF ~on THEN s
  ELSE LET c == [s EXCEPT !.count = s.count + 1]
           ss == Push(s.snaps, Snapshot(c, mod, rss, st), cfg.max)
       IN  IF ~Due(s, force) THEN c ELSE Kept(s.count + 1, ss, s.leaks \o Found(ss, cfg.thr))
Become(s) == count' = s.count /\ snaps' = s.snaps /\ leaks' = s.leaks

Of(ss, m) == SelectSeq(ss, LAMBDA q : q.mod = m)
Rss(ss) == Map(ss, LAMBDA q : q.rss)
States(ss) == Map(ss, LAMBDA q : q.state)
Module(m, ss) == [mod |-> m, n |-> Len(ss), now |-> ss[Len(ss)].rss, peak |-> MaxOf(Rss(ss)), mean |-> Mean(Rss(ss)), growth |-> ss[Len(ss)].rss - ss[1].rss,
                  state |-> ss[Len(ss)].state, statepeak |-> MaxOf(States(ss)), statemean |-> Mean(States(ss))]
Summary(ss) == [peak |-> MaxOf(Rss(ss)), min |-> MinOf(Rss(ss)), mean |-> Mean(Rss(ss)), growth |-> ss[Len(ss)].rss - ss[1].rss]
View(n, ss, ks, dur, got) ==
  [total |-> n, snaps |-> ss, dur |-> dur, got |-> got,
   sum |-> IF ss = <<>> THEN <<>> ELSE <<Summary(ss)>>,
   mods |-> LET ms == SelectSeq(Mods, LAMBDA m : Of(ss, m) # <<>>) IN Map(ms, LAMBDA m : Module(m, Of(ss, m))),
   leaks |-> ks]
See(got) == y' = View(count', snaps', leaks', now' - start', got)
Start == on = TRUE /\ count = 0 /\ snaps = <<>> /\ leaks = <<>> /\ now = 0 /\ start = 0 /\ y = View(0, <<>>, <<>>, 0, FALSE)

SnapOp(o) == /\ o.op = "snap"
             /\ Become(Asked(State, o.mod, o.rss, o.st, o.force))
             /\ UNCHANGED <<cfg, on, now, start>> /\ See(Due(State, o.force))
\* a call of a decorated transformation: a request before it, and one after it unless it raises; what it returns is a state
\* when the tracker looks into it (det) and it is a pair
CallOp(o) == /\ o.op = "call"
             /\ now' = now + o.t
             /\ LET s == Asked(State, o.mod, o.rss, Nothing, FALSE)
                IN  Become(IF o.exc THEN s ELSE Asked(s, o.mod, o.rss2, IF o.det /\ o.pair THEN o.st ELSE Nothing, FALSE))
             /\ UNCHANGED <<cfg, on, start>> /\ See(FALSE)
SwitchOp(o) == /\ o.op = "switch" /\ on' = o.to /\ UNCHANGED <<cfg, count, snaps, leaks, now, start>> /\ See(FALSE)
ResetOp(o) == /\ o.op = "reset" /\ Become(Kept(0, <<>>, <<>>)) /\ start' = now /\ UNCHANGED <<cfg, on, now>> /\ See(FALSE)
WaitOp(o) == /\ o.op = "wait" /\ now' = now + o.t /\ UNCHANGED <<cfg, on, count, snaps, leaks, start>> /\ See(FALSE)
Step(o) == SnapOp(o) \/ CallOp(o) \/ SwitchOp(o) \/ ResetOp(o) \/ WaitOp(o)
-------------------------------------------------------------------------------
Bounded == Len(snaps) <= cfg.max
InOrder == \A i \in 2..Len(snaps) : snaps[i - 1].step < snaps[i].step /\ snaps[i].delta = snaps[i].rss - snaps[i - 1].rss
Whole == \A i \in 1..Len(snaps) : snaps[i].buffers <= snaps[i].state
RealLeaks == \A i \in 1..Len(leaks) : N!Lt(N!Zero, leaks[i].rate) /\ leaks[i].total > cfg.thr /\ leaks[i].first < leaks[i].last /\ leaks[i].last <= count
Off == [][~on /\ ~on' => snaps' \in {snaps, <<>>} /\ count' \in {count, 0}]_vars
===============================================================================
