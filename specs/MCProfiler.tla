------------------------------ MODULE MCProfiler ------------------------------
EXTENDS Profiler, TLC, Json
CONSTANTS T, Configs
VARIABLES hist
MCInit == cfg \in Configs /\ Start /\ hist = <<>>
Given == IF Len(hist) < Len(cfg.first) THEN {cfg.first[Len(hist) + 1]} ELSE {cfg.pool[i] : i \in 1..Len(cfg.pool)}
Room == Len(hist) < T + Len(cfg.first)
Do(A(_)) == Room /\ \E o \in Given : A(o) /\ hist' = Append(hist, [o |-> o, y |-> y'])
MCRecord == Do(RecordOp)
MCBlock == Do(BlockOp)
MCNest == Do(NestOp)
MCCall == Do(CallOp)
MCSwitch == Do(SwitchOp)
MCReset == Do(ResetOp)
MCWait == Do(WaitOp)
MCNext == MCRecord \/ MCBlock \/ MCNest \/ MCCall \/ MCSwitch \/ MCReset \/ MCWait
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == ~Room => PrintT("@@B " \o ToJson([c |-> [max |-> cfg.max, thr |-> cfg.thr, leak |-> cfg.leak, mem |-> cfg.mem], h |-> hist]))
===============================================================================
