----------------------------- MODULE MCAutoFormat -----------------------------
EXTENDS AutoFormat, TLC, Json
CONSTANTS MaxVars
Names == {"a", "b", "c"}
DimLists == {d \in UNION {[1..n -> Names] : n \in 0..3} : \A i, j \in 1..Len(d) : i # j => d[i] # d[j]}
Shapes == UNION {[1..n -> 1..3] : n \in 0..3}
MCInit == cfg \in [size : {[a |-> x, b |-> y, c |-> 3] : x \in 1..2, y \in 2..3}, vs : UNION {[1..n -> DimLists] : n \in 1..MaxVars}] /\ out = <<>>
MCFormat == out = <<>> /\ \E s \in Shapes : Format(s)
Spec == MCInit /\ [][MCFormat]_vars
Emit == out # <<>> => PrintT("@@B " \o ToJson([c |-> cfg, o |-> out]))
===============================================================================
