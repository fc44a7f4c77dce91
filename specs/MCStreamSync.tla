----------------------------- MODULE MCStreamSync -----------------------------
(* Exhaustive model: one secondary stream, every local time line of LocalLen    *)
(* ticks in Ticks, every secondary time line of 1..SecLen ticks, every mode.    *)
EXTENDS StreamSync, TLC, Json
CONSTANTS LocalLen, SecLen, TickMin, TickMax, Period, MaxBuf, NSec
VARIABLE hist

Ticks == TickMin..TickMax
Sorted(n) == {f \in [1..n -> Ticks] : \A a \in 1..(n - 1) : f[a] <= f[a + 1]}
SecTimes  == UNION {Sorted(n) : n \in 1..SecLen}
Modes == [times : SecTimes, period : {0, Period}, maxlen : 0..MaxBuf, ffill : BOOLEAN]
Few   == {m \in Modes : m.maxlen \in {0, 2} /\ Len(m.times) \in {SecLen} /\ (m.ffill <=> m.period = 0)}

Init == /\ IF NSec = 1
           THEN cfg \in {[local |-> lc, sec |-> <<m>>] : lc \in Sorted(LocalLen), m \in Modes}
           ELSE cfg \in {[local |-> lc, sec |-> <<a, b>>] : lc \in Sorted(LocalLen), a, b \in Few}
        /\ i = 0 /\ st = Init0(cfg) /\ out = <<>> /\ hist = <<>>
Step == LocalStep /\ hist' = Append(hist, out')
MCNext == Step
Spec == Init /\ [][MCNext]_<<vars, hist>>
Emit == (i = Len(cfg.local) /\ NSec = 1) => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
