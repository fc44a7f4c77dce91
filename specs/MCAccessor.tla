------------------------------ MODULE MCAccessor ------------------------------
EXTENDS Accessor, TLC, Json
CONSTANTS Vals, Layouts, Steps
VARIABLE hist
\* a layout fixes the container, its item shape and the leaves
MCInit == /\ \E l \in Layouts, s \in BOOLEAN : cfg = [kind |-> l.kind, shape |-> l.shape, leaves |-> l.leaves, skip |-> s]
          /\ Start(cfg) /\ hist = <<>>
Rows == [1..N(cfg) -> Vals]
MCSkip == t < Steps /\ \E x \in Rows : Skip /\ hist' = Append(hist, [x |-> x, y |-> out'])
MCStep == t < Steps /\ \E x \in Rows : Step(x) /\ hist' = Append(hist, [x |-> x, y |-> out'])
MCNext == MCSkip \/ MCStep
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == t = Steps => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist, m |-> Meta(cfg)]))
===============================================================================
