--------------------------------- MODULE Codec ---------------------------------
(* Encoders of a dataset's variables (wax.encode, Stream.get_dataset_schema).         *)
(* cfg.vars: [ty, dims, m, data]  ty "s" text, "d" date, other types have no encoder; *)
(* dims: <<>> (one item) or <<L, ..>> with m items per row; data: its items.          *)
(* Codes are only observed through their equality: an item is encoded in a class,     *)
(* numbered by first appearance in the session (cls: per variable, the value of each  *)
(* class).  A variable without encoder is its own code.                               *)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, cls, out, op
vars == <<cfg, cls, out, op>>
V == 1..Len(cfg.vars)
Coded(v) == v.ty \in {"s", "d"}
\* the rows sel of variable v (all of it when there are no rows)
Rows(v, sel) == IF v.dims = <<>> THEN v.data
                ELSE [q \in 1..(Len(sel) * v.m) |-> v.data[(sel[(q - 1) \div v.m + 1] - 1) * v.m + ((q - 1) % v.m) + 1]]
Index(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
RECURSIVE Extend(_, _)
Extend(s, xs) == IF xs = <<>> THEN s
                 ELSE Extend(IF \E k \in 1..Len(s) : s[k] = xs[1] THEN s ELSE Append(s, xs[1]), Tail(xs))
Classes(s, xs) == [k \in 1..Len(xs) |-> Index(s, xs[k])]
Start == cls = [m \in 1..Len(cfg.vars) |-> <<>>] /\ out = <<>> /\ op = [op |-> "", sel |-> <<>>]
\* encode the rows sel of every variable
Encode(sel) == /\ cls' = [m \in V |-> IF Coded(cfg.vars[m]) THEN Extend(cls[m], Rows(cfg.vars[m], sel)) ELSE <<>>]
               /\ out' = [m \in V |-> LET v == cfg.vars[m]  r == Rows(v, sel) IN IF Coded(v) THEN Classes(cls'[m], r) ELSE r]
               /\ op' = [op |-> "encode", sel |-> sel] /\ UNCHANGED cfg
\* decode codes obtained before: those of the rows sel
Decode(sel) == /\ \A m \in V : Coded(cfg.vars[m]) => \A x \in 1..Len(Rows(cfg.vars[m], sel)) :
                       \E k \in 1..Len(cls[m]) : cls[m][k] = Rows(cfg.vars[m], sel)[x]
               /\ out' = [m \in V |-> Rows(cfg.vars[m], sel)]
               /\ op' = [op |-> "decode", sel |-> sel] /\ UNCHANGED <<cfg, cls>>
-------------------------------------------------------------------------------
\* equal values have equal codes, distinct values distinct codes
Injective == op.op = "encode" => \A m \in V : LET v == cfg.vars[m]  r == Rows(v, op.sel) IN
                \A x, y \in 1..Len(r) : (out[m][x] = out[m][y]) <=> (r[x] = r[y])
\* a code means one value, for ever
Stable == [][\A m \in V : \A k \in 1..Len(cls[m]) : cls'[m][k] = cls[m][k]]_vars
\* decoding what was encoded gives it back
RoundTrip == op.op = "decode" => \A m \in V : out[m] = Rows(cfg.vars[m], op.sel)
===============================================================================
