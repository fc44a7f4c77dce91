--------------------------------- MODULE Lift ---------------------------------
(* Batches of stateful transformations run in lock step (vmap lift, unroll lift, *)
(* batched modules).  The transformations are those of Unroll.tla.  cfg.steps is *)
(* the sequence of rows (one item per batch element); a call boundary (resume)   *)
(* after step cfg.cut must be invisible.  init is made on the first row.         *)
EXTENDS Integers, Sequences
VARIABLES cfg, pos, par, st, out
vars == <<cfg, pos, par, st, out>>
\* the family of transformations (definitions of Unroll.tla)
call == 0  key == <<>>
M == INSTANCE Unroll
B == Len(cfg.steps[1])
Elems == 1..B

Start(c) == [par |-> [b \in 1..Len(c.steps[1]) |-> M!ParInit(c.kind, c.steps[1][b])],
             st  |-> [b \in 1..Len(c.steps[1]) |-> M!StInit(c.kind, c.steps[1][b])]]

\* rows applied: skip drops the first row
Rows == IF cfg.skip THEN Tail(cfg.steps) ELSE cfg.steps

BatchStep ==
  /\ pos < Len(Rows)
  /\ LET row == Rows[pos + 1] IN
       /\ out' = [b \in Elems |-> M!Y(cfg.kind, par[b], st[b], row[b])]
       /\ st'  = [b \in Elems |-> M!S(cfg.kind, par[b], st[b], row[b])]
  /\ pos' = pos + 1
  /\ UNCHANGED <<cfg, par>>

Next == BatchStep
-------------------------------------------------------------------------------
Own(b) == [k \in 1..pos |-> Rows[k][b]]
\* each element is what it would be alone
Independent == \A b \in Elems :
   st[b] = M!Fold(cfg.kind, M!ParInit(cfg.kind, cfg.steps[1][b]), M!StInit(cfg.kind, cfg.steps[1][b]), Own(b))
\* elements with equal inputs are equal, whatever the others
Symmetric == \A a, b \in Elems :
   (cfg.steps[1][a] = cfg.steps[1][b] /\ Own(a) = Own(b)) => (st[a] = st[b] /\ (pos > 0 => out[a] = out[b]))
===============================================================================
