------------------------------ MODULE AutoFormat ------------------------------
(* Formatting an array after the variables of a reference dataset (wax.format):    *)
(* the array gets the leading dims of the first variable of which it has the        *)
(* leading shape; it is returned as it is when there is none.                       *)
EXTENDS Integers, Sequences

VARIABLES cfg, out    \* cfg: size of each dim, dims of each variable; out: the dims given
vars == <<cfg, out>>

ShapeOf(dims, size) == [k \in 1..Len(dims) |-> size[dims[k]]]
Prefixes(dims) == {SubSeq(dims, 1, n) : n \in 0..Len(dims)}
RECURSIVE First(_, _, _)
First(vs, size, shape) ==
  IF vs = <<>> THEN <<>>
  ELSE LET ok == {p \in Prefixes(Head(vs)) : ShapeOf(p, size) = shape}
       IN  IF ok # {} THEN CHOOSE p \in ok : TRUE ELSE First(Tail(vs), size, shape)

Format(shape) == out' = [shape |-> shape, dims |-> First(cfg.vs, cfg.size, shape)] /\ UNCHANGED cfg
-------------------------------------------------------------------------------
\* the dims given describe the array; they are given whenever some variable matches
Fits == out # <<>> => (out.dims = <<>> \/ ShapeOf(out.dims, cfg.size) = out.shape)
Complete == (out # <<>> /\ out.shape # <<>>) =>
              (out.dims = <<>> <=> \A k \in 1..Len(cfg.vs) : \A p \in Prefixes(cfg.vs[k]) : ShapeOf(p, cfg.size) # out.shape)
===============================================================================
