-------------------------------- MODULE Simple --------------------------------
(* RollingMean, Ffill, PctChange, HasChanged, Counter and FillNanInf.            *)
(* The state is what the modules keep: a window, a last valid value, a previous  *)
(* value or a count.  `seen` is the history, used by the properties only.        *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, win, last, prev, count, out, seen
vars == <<cfg, win, last, prev, count, out, seen>>

Start(c) == /\ win = [i \in 1..(IF c.kind = "roll" THEN c.horizon ELSE 2) |-> NaN]
            /\ last = NaN /\ count = 0 /\ out = <<>> /\ seen = <<>>
            /\ prev = <<c.missing, c.missing>>

Valid(s) == SelectSeq(s, LAMBDA v : ~IsNaN(v))
Mean(s)  == Div(SumSeq(s), I(Len(s)))
RollOut(w) == LET v == Valid(w) IN IF Len(v) >= cfg.minp /\ Len(v) > 0 THEN Mean(v) ELSE NaN
PctOut(x, p) == LET r == Sub(Div(x, p), One)
                IN  IF cfg.zero /\ IsNaN(x) /\ ~IsNaN(p) THEN Zero ELSE r
\* NaN differs from everything, itself included
Differs(a, b) == IsNaN(a) \/ IsNaN(b) \/ a # b
Clean(x) == IF IsNaN(x) \/ IsInf(x) THEN cfg.fill ELSE x

Step(x) ==
  /\ seen' = Append(seen, x) /\ UNCHANGED cfg
  /\ \/ /\ cfg.kind = "roll"
        /\ win' = Append(Tail(win), x[1])
        /\ out' = <<RollOut(win')>>
        /\ UNCHANGED <<last, prev, count>>
     \/ /\ cfg.kind = "ffill"
        /\ last' = (IF IsNaN(x[1]) THEN last ELSE x[1])
        /\ out' = <<last'>>
        /\ UNCHANGED <<win, prev, count>>
     \/ /\ cfg.kind = "pct"
        /\ last' = (IF IsNaN(x[1]) THEN last ELSE x[1])
        /\ win' = <<win[2], IF cfg.pad THEN last' ELSE x[1]>>
        /\ out' = <<PctOut(x[1], win'[1])>>
        /\ UNCHANGED <<prev, count>>
     \/ /\ cfg.kind = "changed"
        /\ out' = <<IF \E i \in 1..2 : Differs(x[i], prev[i]) THEN One ELSE Zero>>
        /\ prev' = x
        /\ UNCHANGED <<win, last, count>>
     \/ /\ cfg.kind = "counter"
        /\ count' = count + 1 /\ out' = <<I(count')>>
        /\ UNCHANGED <<win, last, prev>>
     \/ /\ cfg.kind = "clean"
        /\ out' = <<Clean(x[1])>>
        /\ UNCHANGED <<win, last, prev, count>>
-------------------------------------------------------------------------------
(* The same outputs defined on the whole history                                 *)
N == Len(seen)
Xs == [k \in 1..N |-> seen[k][1]]
LastK(k) == SubSeq(Xs, IF N - k + 1 < 1 THEN 1 ELSE N - k + 1, N)
Filled(k) == LET S == {j \in 1..k : ~IsNaN(Xs[j])}
             IN  IF S = {} THEN NaN ELSE Xs[CHOOSE j \in S : \A i \in S : i <= j]
FromHistory ==
  N > 0 =>
    out[1] = CASE cfg.kind = "roll"  -> LET v == Valid(LastK(cfg.horizon))
                                        IN  IF Len(v) >= cfg.minp /\ v # <<>> THEN Mean(v) ELSE NaN
               [] cfg.kind = "ffill" -> Filled(N)
               [] cfg.kind = "pct"   ->
                    LET p == IF N = 1 THEN NaN ELSE IF cfg.pad THEN Filled(N - 1) ELSE Xs[N - 1]
                        x == Xs[N]
                    IN IF cfg.zero /\ IsNaN(x) /\ ~IsNaN(p) THEN Zero ELSE Sub(Div(x, p), One)
               [] cfg.kind = "changed" ->
                    LET p == IF N = 1 THEN <<cfg.missing, cfg.missing>> ELSE seen[N - 1]
                    IN IF seen[N] # p \/ NaN \in {seen[N][1], seen[N][2], p[1], p[2]} THEN One ELSE Zero
               [] cfg.kind = "counter" -> I(N)
               [] OTHER -> IF Xs[N][2] = 0 THEN cfg.fill ELSE Xs[N]
===============================================================================
