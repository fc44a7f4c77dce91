-------------------------------- MODULE MCMasks -------------------------------
EXTENDS Masks, TLC, Json
CONSTANTS Shapes, Vals, Nones
VARIABLE hist
Base == [kind |-> "", n |-> 1, m |-> 1, vector |-> FALSE, axis |-> 0, mlen |-> 1, centered |-> FALSE, fill |-> Zero, none |-> NaN]
\* Shapes: <<n, m, vector>>
Axes(s) == IF s[3] THEN {-1, 0} ELSE {-1, 0, 1}
Configs == UNION {
  {[Base EXCEPT !.kind = "mean", !.n = s[1], !.m = s[2], !.vector = s[3], !.axis = a, !.mlen = s[1] * s[2]] : a \in Axes(s)} \cup
  {[Base EXCEPT !.kind = k, !.n = s[1], !.m = s[2], !.vector = s[3], !.axis = a, !.mlen = s[1] * s[2], !.centered = c, !.none = z] :
       k \in {"std", "norm"}, a \in Axes(s), c \in BOOLEAN, z \in Nones} \cup
  {[Base EXCEPT !.kind = "apply", !.n = s[1], !.m = s[2], !.vector = s[3], !.axis = -1, !.mlen = s[1] * s[2], !.fill = f] : f \in {Zero, I(-9), NaN}} \cup
  (IF s[3] THEN {} ELSE {[Base EXCEPT !.kind = "apply", !.n = s[1], !.m = s[2], !.axis = a, !.mlen = IF a = 0 THEN s[1] ELSE s[2], !.fill = f] : a \in {0, 1}, f \in {Zero, I(-9)}})
  : s \in Shapes}
MCInit == cfg \in Configs /\ Start /\ hist = <<>>
MCStep == /\ N = 0
          /\ \E mask \in [1..cfg.mlen -> {Zero, One}] : \E v \in [1..NM -> Vals] :
               LET x == [i \in 1..(cfg.mlen + NM) |-> IF i <= cfg.mlen THEN mask[i] ELSE v[i - cfg.mlen]]
               IN  Step(x) /\ hist' = <<[x |-> x, y |-> out']>>
Spec == MCInit /\ [][MCStep]_<<vars, hist>>
Emit == N = 1 => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
