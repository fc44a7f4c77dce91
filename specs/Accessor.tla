------------------------------- MODULE Accessor -------------------------------
(* Applying a module through the accessors (wax.accessors, wax.format).           *)
(*                                                                                *)
(* A container holds one observation per time step: an array of the item shape    *)
(* `shape` (row-major, 1 based labels per dimension).  It is processed in one or   *)
(* several calls of apply, each resuming from the state the previous one returned. *)
(* The module keeps one state per item: y = s + x, s' = 2s + x, s0 = 1 (a missing  *)
(* input counts as 0, but the step is made).  It returns a structure of leaves:     *)
(*   same  y, with all the dims             sum  the sum of the items (time only)   *)
(*   pos   whether y > 3, all the dims      last the sums along the last item dim    *)
(*   tr    y transposed (two item dims)                                             *)
(* The result of a call labels each leaf with the dims of the input that it keeps,   *)
(* the time labels being those of the steps processed (skip: the first step of the   *)
(* first call only initialises).                                                    *)
EXTENDS Integers, Sequences

Missing == -1000
VARIABLES cfg, t, st, out
vars == <<cfg, t, st, out>>

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Nz(x) == IF x = Missing THEN 0 ELSE x

N(c) == Prod(c.shape)
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* the item dims (indices into shape) that a leaf keeps, in order
Dims(leaf, shape) == CASE leaf \in {"same", "pos"} -> [d \in 1..Len(shape) |-> d]
                       [] leaf = "sum" -> <<>>
                       [] leaf = "last" -> [d \in 1..(Len(shape) - 1) |-> d]
                       [] leaf = "tr" -> <<2, 1>>
LeafShape(leaf, shape) == [k \in 1..Len(Dims(leaf, shape)) |-> shape[Dims(leaf, shape)[k]]]
Value(leaf, shape, y) ==
  CASE leaf = "same" -> y
    [] leaf = "pos"  -> [j \in 1..Len(y) |-> IF y[j] > 3 THEN 1 ELSE 0]
    [] leaf = "sum"  -> <<Sum(y)>>
    [] leaf = "last" -> [j \in 1..Prod(Front(shape)) |-> Sum(SubSeq(y, (j - 1) * Last(shape) + 1, j * Last(shape)))]
    [] leaf = "tr"   -> [j \in 1..Len(y) |-> y[(((j - 1) % shape[1]) * shape[2]) + ((j - 1) \div shape[1]) + 1]]

\* The container of a leaf
Type(c, leaf) ==
  CASE c.kind = "ds" -> "DataArray"
    [] c.kind = "da" -> "DataArray"
    [] c.kind = "series" -> "Series"
    [] c.kind = "df" -> IF Dims(leaf, c.shape) = <<>> THEN "Series" ELSE "DataFrame"
Meta(c) == [k \in 1..Len(c.leaves) |-> [type |-> Type(c, c.leaves[k]), dims |-> Dims(c.leaves[k], c.shape),
                                        shape |-> LeafShape(c.leaves[k], c.shape)]]

Init0(c) == [j \in 1..N(c) |-> 1]
Start(c) == t = 0 /\ st = Init0(c) /\ out = <<>>

\* skip: the observation only initialises, nothing is applied
Skip == /\ t = 0 /\ cfg.skip
        /\ t' = 1 /\ out' = <<>> /\ UNCHANGED <<cfg, st>>
Step(x) == /\ (cfg.skip => t > 0)
           /\ LET y == [j \in 1..N(cfg) |-> st[j] + Nz(x[j])]
              IN  /\ out' = [lab |-> t + 1, v |-> [k \in 1..Len(cfg.leaves) |-> Value(cfg.leaves[k], cfg.shape, y)]]
                  /\ st' = [j \in 1..N(cfg) |-> 2 * st[j] + Nz(x[j])]
           /\ t' = t + 1 /\ UNCHANGED cfg
-------------------------------------------------------------------------------
\* Properties
\* a leaf has as many values as its dims say
WellShaped == out # <<>> => \A k \in 1..Len(cfg.leaves) : Len(out.v[k]) = Prod(LeafShape(cfg.leaves[k], cfg.shape))
\* the leaves describe the same items: the sums agree
Consistent == out # <<>> => \A k, m \in 1..Len(cfg.leaves) :
                (cfg.leaves[k] # "pos" /\ cfg.leaves[m] # "pos") => Sum(out.v[k]) = Sum(out.v[m])
\* one labelled result per applied observation
Labelled == out # <<>> => out.lab = t /\ (cfg.skip => t > 1)
===============================================================================
