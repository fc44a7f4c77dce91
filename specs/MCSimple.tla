------------------------------- MODULE MCSimple -------------------------------
EXTENDS Simple, TLC, Json
CONSTANTS TR, TF, TP, TH, TC
VARIABLE hist
Base == [kind |-> "", horizon |-> 1, minp |-> 1, pad |-> TRUE, zero |-> TRUE, missing |-> NaN, fill |-> Zero]
Configs ==
  {[Base EXCEPT !.kind = "roll", !.horizon = h, !.minp = m] : h \in 1..4, m \in 0..3} \cup
  {[Base EXCEPT !.kind = "ffill"], [Base EXCEPT !.kind = "counter"]} \cup
  {[Base EXCEPT !.kind = "pct", !.pad = p, !.zero = z] : p \in BOOLEAN, z \in BOOLEAN} \cup
  {[Base EXCEPT !.kind = "changed", !.missing = m] : m \in {NaN, I(-99999), Zero}} \cup
  {[Base EXCEPT !.kind = "clean", !.fill = f] : f \in {Zero, I(-3)}}
Inputs ==
  CASE cfg.kind = "roll"  -> {<<v>> : v \in {I(1), I(4), NaN, PInf}}
    [] cfg.kind = "ffill" -> {<<v>> : v \in {I(1), I(2), NaN, NInf}}
    [] cfg.kind = "pct"   -> {<<v>> : v \in {I(0), I(2), I(-3), NaN, PInf}}
    [] cfg.kind = "changed" -> IF cfg.missing = NaN THEN {<<a, b>> : a \in {Zero, One, NaN}, b \in {Zero, One, NaN}}
                               ELSE {<<a, b>> : a \in {Zero, One}, b \in {Zero, One}}
    [] cfg.kind = "counter" -> {<<Zero>>}
    [] OTHER -> {<<v>> : v \in {I(5), NaN, PInf, NInf}}
T == CASE cfg.kind = "roll" -> TR [] cfg.kind = "ffill" -> TF [] cfg.kind = "pct" -> TP
       [] cfg.kind = "changed" -> TH [] OTHER -> TC
MCInit == cfg \in Configs /\ Start(cfg) /\ hist = <<>>
MCStep == /\ N < T
          /\ \E x \in Inputs : Step(x) /\ hist' = Append(hist, [x |-> x, y |-> out'])
Spec == MCInit /\ [][MCStep]_<<vars, hist>>
Emit == N = T => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
