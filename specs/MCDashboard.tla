------------------------------ MODULE MCDashboard ------------------------------
EXTENDS Dashboard, Json
CONSTANTS T, Configs
VARIABLES hist
MCInit == cfg \in Configs /\ Start /\ hist = <<>>
Given == IF Len(hist) < Len(cfg.first) THEN {cfg.first[Len(hist) + 1]} ELSE {cfg.pool[i] : i \in 1..Len(cfg.pool)}
Room == Len(hist) < T + Len(cfg.first)
Do(A(_)) == Room /\ \E o \in Given : A(o) /\ hist' = Append(hist, [o |-> o, y |-> y'])
MCNext == Do(RegOp) \/ Do(RecOp) \/ Do(BurstOp) \/ Do(RawOp) \/ Do(StepOp) \/ Do(ClearOp) \/ Do(ConnectOp) \/ Do(SubOp) \/ Do(WaitOp) \/ Do(DrawOp)
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == ~Room => PrintT("@@B " \o ToJson([c |-> [max |-> cfg.max, slow |-> cfg.slow, big |-> cfg.big, alerts |-> cfg.alerts, web |-> cfg.web], h |-> hist]))
================================================================================
