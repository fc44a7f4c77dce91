----------------------------- MODULE MCStreamData -----------------------------
EXTENDS StreamData, TLC, Json
CONSTANTS LocalLen, SecLen, TickMin, TickMax, Period, MaxBuf, KindSets, NSec
VARIABLE hist
Ticks == TickMin..TickMax
Sorted(n) == {f \in [1..n -> Ticks] : \A a \in 1..(n - 1) : f[a] <= f[a + 1]}
Modes == [times : Sorted(SecLen), period : {0, Period}, maxlen : {0, 1, MaxBuf}, ffill : BOOLEAN]
Val(m, ty, k, j) == IF ty = "b" THEN (m + k + j) % 2
                    ELSE IF ty \in {"f", "f4"} /\ (m + k + j) % 3 = 0 THEN NaN
                    ELSE IF ty \in {"i", "i4", "d"} /\ (k + j) % 2 = 0 THEN -(100 * m + 10 * k + j)
                    ELSE IF ty = "s" THEN (7 * k + 5 * j + m) % 11 ELSE 100 * m + 10 * k + j
Obs(c, on) == IF on = -1 THEN 1 ELSE IF on = 0 THEN Len(c.local) ELSE Len(c.sec[on].times)
Var(c, Kinds, m) == LET z == Kinds[m] IN
             [on |-> z.on, n |-> z.n, ty |-> z.ty, dims |-> z.dims,
              data |-> [k \in 1..Obs(c, z.on) |-> [j \in 1..z.n |-> Val(m, z.ty, k, j)]]]
Full(c, Kinds) == [local |-> c.local, sec |-> c.sec, vars |-> [m \in 1..Len(Kinds) |-> Var(c, Kinds, m)]]
MCInit == /\ \E lc \in Sorted(LocalLen), kd \in KindSets :
               IF NSec = 0 THEN cfg = Full([local |-> lc, sec |-> <<>>], kd)
               ELSE IF NSec = 1 THEN \E a \in Modes : cfg = Full([local |-> lc, sec |-> <<a>>], kd)
               ELSE \E a \in {z \in Modes : z.period = 0 /\ z.maxlen # 1}, b \in {z \in Modes : z.period # 0 /\ z.maxlen = 0 /\ z.ffill} :
                       cfg = Full([local |-> lc, sec |-> <<a, b>>], kd)
          /\ i = 0 /\ st = Init0(cfg) /\ out = <<>> /\ val = <<>> /\ hist = <<>>
MCNext == DataStep /\ hist' = Append(hist, val')
Spec == MCInit /\ [][MCNext]_<<dvars, hist>>
Emit == i = Len(cfg.local) => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
