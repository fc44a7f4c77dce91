------------------------------ MODULE StreamData ------------------------------
(* The values delivered to the module at each local step (wax.stream.access_data). *)
(* cfg.vars: sequence of variables                                                 *)
(*   on   -1 independent of time, 0 local time, k > 0 secondary stream k           *)
(*   n    number of items of an observation                                        *)
(*   ty   f f4 (floats) i i4 (integers) u (unsigned) b (boolean) d (date) s (text) *)
(*   data one sequence of n items per observation (one in all when on = -1)        *)
EXTENDS StreamSync
VARIABLE val         \* per variable, the sequence of the items delivered
dvars == <<vars, val>>
NaN == -777777
FillOf(ty) == CASE ty \in {"f", "f4"} -> NaN [] ty \in {"i", "i4", "s"} -> -99999 [] OTHER -> 0
Items(v, k) == IF k = Missing THEN [j \in 1..v.n |-> FillOf(v.ty)] ELSE v.data[k + 1]
Flat(v, ks) == [q \in 1..(v.n * Len(ks)) |-> Items(v, ks[(q - 1) \div v.n + 1])[((q - 1) % v.n) + 1]]
Deliver(v) == IF v.on = -1 THEN v.data[1] ELSE IF v.on = 0 THEN v.data[i'] ELSE Flat(v, out'[v.on])
DataStart == val = <<>>
DataStep == LocalStep /\ val' = [m \in 1..Len(cfg.vars) |-> Deliver(cfg.vars[m])]
-------------------------------------------------------------------------------
(* properties: what is delivered was observed, in time, and is complete            *)
V == 1..Len(cfg.vars)
\* the observations of variable v that may be known at step i
Known(v) == IF v.on = -1 THEN {0} ELSE IF v.on = 0 THEN {i - 1} ELSE Visible(cfg.sec[v.on], i)
FromData == i > 0 => \A m \in V : LET v == cfg.vars[m] IN
   \A q \in 1..Len(val[m]) : LET j == ((q - 1) % v.n) + 1 IN
      val[m][q] = FillOf(v.ty) \/ \E k \in Known(v) : val[m][q] = v.data[k + 1][j]
\* an observation is delivered whole or not at all
Whole == i > 0 => \A m \in V : LET v == cfg.vars[m] IN
   \A p \in 0..(Len(val[m]) \div v.n - 1) : LET w == SubSeq(val[m], p * v.n + 1, (p + 1) * v.n) IN
      (\E k \in Known(v) : w = v.data[k + 1]) \/ (v.on > 0 /\ \A j \in 1..v.n : w[j] = FillOf(v.ty))
\* two variables of the same stream are delivered from the same observations
Together == i > 0 => \A m, o \in V : LET v == cfg.vars[m]  w == cfg.vars[o] IN
   v.on = w.on /\ v.on > 0 => Len(val[m]) * w.n = Len(val[o]) * v.n
Constant == [][i > 0 => \A m \in V : cfg.vars[m].on = -1 => val'[m] = val[m]]_dvars
===============================================================================
