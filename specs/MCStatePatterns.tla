--------------------------- MODULE MCStatePatterns ---------------------------
EXTENDS StatePatterns, TLC, Json
CONSTANTS T, Configs, Inputs
VARIABLES hist, cur   \* cur: the input of the step being run
MCInit == cfg \in Configs /\ Start /\ hist = <<>> /\ cur = <<>>
Pool(k) == IF n % 2 = 0 THEN Inputs ELSE Inputs \cup {I(-2)}
Choices ==
  CASE cfg.kind = "hsm" -> {<<v>> : v \in Pool(0)}
    [] cfg.kind = "composite" -> IF Len(cfg.inkeys) <= 1 THEN {<<v>> : v \in Pool(0)} ELSE {[i \in 1..Len(cfg.inkeys) |-> IF i = 1 THEN v ELSE Add(v, I(i))] : v \in Pool(0)}
    [] cfg.kind = "attention" -> {[i \in 1..(cfg.chans + 1) |-> IF i = cfg.chans + 1 THEN (IF v = I(-2) /\ n > 2 THEN Zero ELSE One)
                                                                ELSE IF i = 1 THEN v ELSE I(((n * i) % 3) - 1)] : v \in Pool(0)}
More == IF cfg.kind = "attention" THEN n < T + 2 ELSE n < T
Pick == cfg.kind = "hsm" /\ More /\ cur = <<>> /\ \E x \in Choices : cur' = x /\ UNCHANGED <<vars, hist>>
RunOne == cur # <<>> /\ \E i \in Comp : StepRun(i, cur) /\ UNCHANGED <<hist, cur>>
End == cur # <<>> /\ StepEnd /\ hist' = Append(hist, [x |-> cur, y |-> out']) /\ cur' = <<>>
Whole == cfg.kind # "hsm" /\ More /\ \E x \in Choices : (StepComposite(x) \/ StepAttention(x)) /\ hist' = Append(hist, [x |-> x, y |-> out']) /\ UNCHANGED cur
MCNext == Pick \/ RunOne \/ End \/ Whole
Spec == MCInit /\ [][MCNext]_<<vars, hist, cur>>
ConfluentInv == cur # <<>> => Confluent(cur[1])
Emit == (~More /\ cur = <<>>) => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
==============================================================================
