------------------------------ MODULE MCDebugger ------------------------------
EXTENDS Debugger, TLC, Json
CONSTANTS T, Configs
VARIABLES hist
MCInit == cfg \in Configs /\ Start /\ hist = <<>>
\* the first operations are given, then any of the pool
Given == IF Len(hist) < Len(cfg.first) THEN {cfg.first[Len(hist) + 1]} ELSE {cfg.pool[i] : i \in 1..Len(cfg.pool)}
Room == Len(hist) < T + Len(cfg.first)
Do(A(_)) == Room /\ \E o \in Given : A(o) /\ hist' = Append(hist, [o |-> o, y |-> y'])
MCStep == Do(StepOp)
MCSwitch == Do(Switch)
MCAdd == Do(AddHook)
MCRemove == Do(RemoveHook)
MCHook == Do(SwitchHook)
MCClear == Do(Clear)
MCOthers == Do(Others)
MCNext == MCStep \/ MCSwitch \/ MCAdd \/ MCRemove \/ MCHook \/ MCClear \/ MCOthers
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == ~Room => PrintT("@@B " \o ToJson([c |-> [track |-> cfg.track, perf |-> cfg.perf, max |-> cfg.max], h |-> hist]))
===============================================================================
