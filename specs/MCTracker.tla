------------------------------ MODULE MCTracker ------------------------------
EXTENDS Tracker, TLC, Json
CONSTANTS T, Configs
VARIABLES hist
MCInit == cfg \in Configs /\ Start /\ hist = <<>>
Given == IF Len(hist) < Len(cfg.first) THEN {cfg.first[Len(hist) + 1]} ELSE {cfg.pool[i] : i \in 1..Len(cfg.pool)}
Room == Len(hist) < T + Len(cfg.first)
Do(A(_)) == Room /\ \E o \in Given : A(o) /\ hist' = Append(hist, [o |-> o, y |-> y'])
MCSnap == Do(SnapOp)
MCCall == Do(CallOp)
MCSwitch == Do(SwitchOp)
MCReset == Do(ResetOp)
MCWait == Do(WaitOp)
MCNext == MCSnap \/ MCCall \/ MCSwitch \/ MCReset \/ MCWait
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == ~Room => PrintT("@@B " \o ToJson([c |-> [max |-> cfg.max, thr |-> cfg.thr, interval |-> cfg.interval], h |-> hist]))
===============================================================================
