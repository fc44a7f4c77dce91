-------------------------------- MODULE MCArma --------------------------------
EXTENDS Arma, TLC, Json
CONSTANTS TA, TS
VARIABLE hist
Al == <<Q(1, 2), I(-1), I(2)>>
Be == <<I(3), Q(-1, 2), I(1)>>
W == <<I(1), I(-2), I(3), Q(1, 2), I(-1), I(2)>>
First(s, n) == SubSeq(s, 1, n)
Configs ==
  {[kind |-> "arma", p |-> p, q |-> q, alpha |-> First(Al, p), beta |-> First(Be, q), w |-> <<>>, nx |-> 0] : p \in 1..3, q \in 1..2} \cup
  {[kind |-> "snar", p |-> p, q |-> q, alpha |-> <<>>, beta |-> <<>>, w |-> First(W, p + q + nx), nx |-> nx] : p \in 1..3, q \in 0..2, nx \in 0..1} \cup
  {[kind |-> "snarfx", p |-> p, q |-> q, alpha |-> <<>>, beta |-> <<>>, w |-> First(W, p + q + 1), nx |-> 0] : p \in 0..3, q \in 0..2}
Inputs ==
  CASE cfg.kind = "arma" -> {<<v>> : v \in {I(1), I(-2), Zero, NaN, PInf}}
    [] cfg.kind = "snar" -> IF cfg.nx = 0 THEN {<<v>> : v \in {I(1), I(-2), NaN}} ELSE {<<v, x>> : v \in {I(1), NaN}, x \in {I(2), I(-1)}}
    [] OTHER -> IF cfg.q = 0 THEN {<<v, Zero>> : v \in {I(1), I(-2), NaN}} ELSE {<<v, y>> : v \in {I(1), I(2)}, y \in {I(2), I(-1)}}
Max == IF cfg.kind = "arma" THEN TA ELSE TS
MCInit == cfg \in Configs /\ Start(cfg) /\ hist = <<>>
MCStep == /\ N < Max /\ \E x \in Inputs : Step(x) /\ hist' = Append(hist, [x |-> x, y |-> out'])
Spec == MCInit /\ [][MCStep]_<<vars, hist>>
Emit == N = Max => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
