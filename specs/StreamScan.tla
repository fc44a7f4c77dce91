------------------------------ MODULE StreamScan ------------------------------
(* Flax streaming transforms: a session of calls to a transformed stateful        *)
(* function.  A step is <<mode, v, r>>: mode 0 applies the function to one item,  *)
(* mode 1 starts a scan, mode 2 is a further item of the scan.  r is the reset    *)
(* event: when cfg.reset is set, the state after a scanned item with r is the     *)
(* state the scan started from.  init runs the function once on cfg.x0 (or, with  *)
(* cfg.auto, on the first item of the first scan) and keeps the state.            *)
(*   acc  y = s + v, s' = 2s + v, s0 = 1      lag  y = previous item              *)
(*   map  y = 3v + 1 (the StreamingScan module: no state)                         *)
(*   nest y = <<count, sum of the lagged items>>: several modules                 *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, st, base, out, seen
vars == <<cfg, st, base, out, seen>>
S0 == [a |-> 1, prev |-> NaN, n |-> 0, tot |-> Zero]
F(s, v) == [a |-> IF cfg.kind = "acc" THEN 2 * s.a + v[1] ELSE 1, prev |-> v, n |-> s.n + 1,
            tot |-> IF IsNaN(s.prev) THEN s.tot ELSE Add(s.tot, s.prev)]
Y(s, v) == CASE cfg.kind = "acc" -> <<I(s.a + v[1])>>
             [] cfg.kind = "lag" -> <<s.prev>>
             [] cfg.kind = "map" -> <<Add(Mul(I(3), v), One)>>
             [] OTHER -> <<I(s.n + 1), F(s, v).tot>>
Start(c) == /\ st = [f |-> S0, fresh |-> TRUE] /\ base = S0 /\ out = <<>> /\ seen = <<>>
\* the state a call starts from: the first one initialises
Cur(v) == IF st.fresh THEN F(S0, IF cfg.auto THEN v ELSE cfg.x0) ELSE st.f
Apply(v) ==
  /\ ~(cfg.auto /\ st.fresh)
  /\ out' = Y(Cur(v), v) /\ st' = [f |-> F(Cur(v), v), fresh |-> FALSE]
  /\ seen' = Append(seen, <<Zero, v, Zero>>) /\ UNCHANGED <<cfg, base>>
Scanned(s, b, v, r) ==
  /\ out' = Y(s, v)
  /\ st' = [f |-> IF cfg.reset /\ r # Zero THEN b ELSE F(s, v), fresh |-> FALSE]
  /\ base' = b /\ UNCHANGED cfg
StartScan(v, r) == Scanned(Cur(v), Cur(v), v, r) /\ seen' = Append(seen, <<One, v, r>>)
Continue(v, r) == /\ seen # <<>> /\ seen[Len(seen)][1] # Zero
                  /\ Scanned(st.f, base, v, r) /\ seen' = Append(seen, <<I(2), v, r>>)
Step(x) == CASE x[1] = Zero -> Apply(x[2]) [] x[1] = One -> StartScan(x[2], x[3]) [] OTHER -> Continue(x[2], x[3])
-------------------------------------------------------------------------------
(* The items that determine the state before step k                              *)
N == Len(seen)
Begin(k) == CHOOSE j \in 1..k : seen[j][1] = One /\ \A i \in (j + 1)..k : seen[i][1] = I(2)
RECURSIVE Items(_)
Items(k) ==
  IF k = 1 THEN <<IF cfg.auto THEN seen[1][2] ELSE cfg.x0>>
  ELSE LET p == seen[k - 1] IN
       IF p[1] # Zero /\ cfg.reset /\ p[3] # Zero THEN Items(Begin(k - 1)) ELSE Append(Items(k - 1), p[2])
RECURSIVE Acc(_)
Acc(s) == IF s = <<>> THEN 1 ELSE 2 * Acc(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)][1]
FromHistory ==
  N > 0 => LET s == Items(N)  v == seen[N][2]  n == Len(s) IN
    out = CASE cfg.kind = "acc" -> <<I(Acc(s) + v[1])>>
            [] cfg.kind = "lag" -> <<s[n]>>
            [] cfg.kind = "map" -> <<Add(Mul(I(3), v), One)>>
            [] OTHER -> <<I(n + 1), SumSeq(s)>>
===============================================================================
