----------------------------- MODULE MCGymFeedback -----------------------------
EXTENDS GymFeedback, TLC, Json
CONSTANTS T
VARIABLE hist
Configs ==
  [kind : {"hk"}, init : {NaN, I(5), I(0)}, obs : BOOLEAN, act : BOOLEAN, reward : {FALSE}] \cup
  [kind : {"fx", "fxloop"}, init : {NaN}, obs : {FALSE}, act : {FALSE}, reward : BOOLEAN]
Inputs == IF cfg.reward THEN {<<v, r>> : v \in {I(1), I(-2)}, r \in {Zero, I(3)}} ELSE {<<v, Zero>> : v \in {I(1), I(-2), Zero}}
MCInit == cfg \in Configs /\ Start /\ hist = <<>>
MCStep == /\ N < T /\ \E x \in Inputs : Step(x) /\ hist' = Append(hist, [x |-> x, y |-> out'])
Spec == MCInit /\ [][MCStep]_<<vars, hist>>
Emit == N = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
