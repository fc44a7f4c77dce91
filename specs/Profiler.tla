------------------------------- MODULE Profiler -------------------------------
(* The streaming profiler (wax.flax.debug.profiler): one record per measured call,  *)
(* the last max of which are kept, and the statistics of the records.               *)
(* Times are integers (ticks), memory is in MB, sizes in bytes; answers with        *)
(* divisions are exact rationals of Num.                                            *)
EXTENDS Integers, Sequences
N == INSTANCE Num

VARIABLES cfg,     \* max: records kept; thr: a call longer than this is a bottleneck; leak: MB; mem: is memory tracked
          on, count, recs, last, now, start,
          y        \* what a user sees after the operation
vars == <<cfg, on, count, recs, last, now, start, y>>

RECURSIVE SumOf(_), Sorted(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
MaxOf(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= m
MinOf(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] >= m
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE LET m == MinOf(s)
                  IN  SelectSeq(s, LAMBDA x : x = m) \o Sorted(SelectSeq(s, LAMBDA x : x # m))
Mean(s) == N!Q(SumOf(s), Len(s))
Median(s) == LET t == Sorted(s)
                 n == Len(s)
             IN  IF n % 2 = 1 THEN N!I(t[(n + 1) \div 2]) ELSE N!Q(t[n \div 2] + t[(n \div 2) + 1], 2)
\* variance of a sample, of the distances to its smallest element (the numbers stay small)
Var(s) == IF Len(s) < 2 THEN N!Zero
          ELSE LET m == MinOf(s)
                   d == [i \in 1..Len(s) |-> s[i] - m]
                   q == [i \in 1..Len(s) |-> d[i] * d[i]]
               IN  N!Q(Len(s) * SumOf(q) - SumOf(d) * SumOf(d), Len(s) * (Len(s) - 1))
Stats(s) == [mean |-> Mean(s), median |-> Median(s), min |-> MinOf(s), max |-> MaxOf(s), var |-> Var(s)]
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Suffix(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))
Order(a, b) == IF N!Lt(b, a) THEN 1 ELSE IF a = b THEN 2 ELSE 0      \* is a > b? 2: they are equal, and rounding decides

Mods == <<"a", "b", "m">>
NamesOf(rs) == SelectSeq(Mods, LAMBDA m : \E i \in 1..Len(rs) : rs[i].mod = m)
Times(rs) == Map(rs, LAMBDA r : r.t)
Mems(rs) == Map(rs, LAMBDA r : r.mem)
Of(rs, m) == SelectSeq(rs, LAMBDA r : r.mod = m)
Jits(rs) == Len(SelectSeq(rs, LAMBDA r : r.jit))
Alloc(rs) == SumOf(Map(SelectSeq(rs, LAMBDA r : r.delta > 0), LAMBDA r : r.delta))

Module(m, rs) == [mod |-> m, n |-> Len(rs), total |-> SumOf(Times(rs)), mean |-> Mean(Times(rs)), max |-> MaxOf(Times(rs)), min |-> MinOf(Times(rs)),
                  mem |-> Mean(Mems(rs)), peak |-> MaxOf(Mems(rs)), jits |-> Jits(rs)]
Leaks(rs, leak) == LET w == Suffix(rs, 10)
                       g == w[Len(w)].mem - w[1].mem
                   IN  IF Len(rs) < 10 \/ g <= leak THEN <<>> ELSE <<[growth |-> g, from |-> w[1].mem, to |-> w[Len(w)].mem]>>
\* the advice given, in order: 1 given, 0 not given, 2 undecided (a tie of divided numbers)
Unsteady(all) == Map(Mods, LAMBDA m : LET ts == Times(Of(all, m))
                                      IN  IF Len(ts) < 2 THEN 0 ELSE Order(N!Mul(N!I(4), Var(ts)), N!Mul(Mean(ts), Mean(ts))))
Advice(rs, all) ==
  IF rs = <<>> THEN [time |-> 0, alloc |-> 0, jit |-> 0, large |-> 0, mods |-> <<0, 0, 0>>]
  ELSE [time |-> Order(N!I(MaxOf(Times(rs))), N!Mul(N!I(3), Mean(Times(rs)))),
        alloc |-> IF Alloc(rs) > 100 THEN 1 ELSE 0,
        jit |-> IF 10 * Jits(rs) > Len(rs) THEN 1 ELSE 0,
        large |-> IF 2 * Len(SelectSeq(rs, LAMBDA r : r.inn > 1048576)) > Len(rs) THEN 1 ELSE 0,
        mods |-> Unsteady(all)]
Slow(rs, thr) == Map(SelectSeq(rs, LAMBDA r : r.t > thr), LAMBDA r : [step |-> r.step, mod |-> r.mod, t |-> r.t, mem |-> r.mem, inn |-> r.inn, out |-> r.out])

View(c, k, all, dur) ==
  LET rs == Suffix(all, c.max)
      ns == NamesOf(rs)
  IN  [total |-> k, dur |-> dur, rate |-> IF dur = 0 THEN N!Zero ELSE N!Q(k, dur),
       metrics |-> Map(rs, LAMBDA r : [step |-> r.step, mod |-> r.mod, t |-> r.t, mem |-> r.mem, delta |-> r.delta, jit |-> r.jit, inn |-> r.inn, out |-> r.out]),
       times |-> IF rs = <<>> THEN <<>> ELSE <<Stats(Times(rs))>>,
       mems |-> IF rs = <<>> THEN <<>> ELSE <<Stats(Mems(rs))>>,
       sum |-> SumOf(Times(rs)), alloc |-> Alloc(rs), jits |-> Jits(rs),
       eff |-> IF rs = <<>> THEN N!Zero ELSE IF MaxOf(Mems(rs)) = 0 THEN N!One ELSE N!Q(MinOf(Mems(rs)), MaxOf(Mems(rs))),
       slow |-> Slow(all, c.thr), mods |-> [i \in 1..Len(ns) |-> Module(ns[i], Of(rs, ns[i]))],
       leaks |-> Leaks(rs, c.leak), advice |-> Advice(rs, all)]
See == y' = View(cfg, count', recs', now' - start')

Start == on = TRUE /\ count = 0 /\ recs = <<>> /\ last = 0 /\ now = 0 /\ start = 0 /\ y = View(cfg, 0, <<>>, 0)

\* the profiler's own memory: what is recorded, how many, and the memory seen last
Kept(c, r, m) == [count |-> c, recs |-> r, last |-> m]
State == Kept(count, recs, last)
Recorded(s, act, mod, t, jit, inn, out, rss) ==
  IF ~act THEN s
  ELSE LET m == IF cfg.mem THEN rss ELSE 0
       IN  Kept(s.count + 1, Append(s.recs, [step |-> s.count + 1, mod |-> mod, t |-> t, mem |-> m, delta |-> m - s.last, jit |-> jit, inn |-> inn, out |-> out]), m)
Become(s) == count' = s.count /\ recs' = s.recs /\ last' = s.last

RecordOp(o) == /\ o.op = "record"
               /\ Become(Recorded(State, on, o.mod, o.t, o.jit, o.inn, o.out, o.rss))
               /\ UNCHANGED <<cfg, on, now, start>> /\ See
\* a block of code measured; within it the profiler may be switched or reset, and it may raise
BlockOp(o) == /\ o.op = "block"
              /\ on' = (IF o.mid = "on" THEN TRUE ELSE IF o.mid = "off" THEN FALSE ELSE on)
              /\ now' = now + o.t
              /\ start' = IF o.mid = "reset" THEN now' ELSE start
              /\ Become(Recorded(IF o.mid = "reset" THEN Kept(0, <<>>, 0) ELSE State, on', o.mod, o.t, o.jit, 0, 0, o.rss))
              /\ UNCHANGED cfg /\ See
\* a block within a block: the inner one is recorded first, and the outer one lasts longer
NestOp(o) == /\ o.op = "nest"
             /\ now' = now + o.t + o.t2
             /\ Become(Recorded(Recorded(State, on, o.mod2, o.t2, o.jit, 0, 0, o.rss2), on, o.mod, o.t + o.t2, FALSE, 0, 0, o.rss))
             /\ UNCHANGED <<cfg, on, start>> /\ See
\* a call of a decorated transformation, with its data (det) or without; it may raise, and then returns nothing
CallOp(o) == /\ o.op = "call"
             /\ now' = now + o.t
             /\ Become(Recorded(State, on, o.mod, o.t, FALSE, IF o.det THEN o.inn ELSE 0, IF o.det /\ ~o.exc THEN o.out ELSE 0, o.rss))
             /\ UNCHANGED <<cfg, on, start>> /\ See
SwitchOp(o) == /\ o.op = "switch" /\ on' = o.to /\ UNCHANGED <<cfg, count, recs, last, now, start>> /\ See
ResetOp(o) == /\ o.op = "reset" /\ Become(Kept(0, <<>>, 0)) /\ start' = now /\ UNCHANGED <<cfg, on, now>> /\ See
WaitOp(o) == /\ o.op = "wait" /\ now' = now + o.t /\ UNCHANGED <<cfg, on, count, recs, last, start>> /\ See
Step(o) == RecordOp(o) \/ BlockOp(o) \/ NestOp(o) \/ CallOp(o) \/ SwitchOp(o) \/ ResetOp(o) \/ WaitOp(o)
-------------------------------------------------------------------------------
Bounded == Len(y.metrics) <= cfg.max
InOrder == \A i \in 1..Len(y.metrics) : y.metrics[i].step = count - Len(y.metrics) + i
Deltas == SumOf(Map(recs, LAMBDA r : r.delta)) = last
Parts == LET ms == y.mods IN SumOf(Map(ms, LAMBDA m : m.n)) = Len(y.metrics) /\ SumOf(Map(ms, LAMBDA m : m.total)) = y.sum
Between == \A k \in 1..Len(y.times) : /\ ~N!Lt(y.times[k].mean, N!I(y.times[k].min)) /\ ~N!Lt(N!I(y.times[k].max), y.times[k].mean)
                                      /\ ~N!Lt(y.times[k].var, N!Zero)
Off == [][~on /\ ~on' => recs' \in {recs, <<>>}]_vars
===============================================================================
