---------------------------- MODULE MCGymCallbacks ----------------------------
EXTENDS GymCallbacks, Json
CONSTANTS Ops, Cs, Data, Runs, Faults, Explicit
VARIABLES hist, nops, nruns, nfault
mc == <<hist, nops, nruns, nfault>>
MCInit == cfg = [data |-> Data] /\ Start /\ hist = <<>> /\ nops = 0 /\ nruns = 0 /\ nfault = 0
Log == hist' = IF Silent THEN hist ELSE Append(hist, ev')
Op(A) == nops < Ops /\ A /\ nops' = nops + 1 /\ Log
MCEnter == \E c \in Cs : Op(Enter(c)) /\ UNCHANGED <<nruns, nfault>>
MCLeave == \E x \in {0, 1} : Op(Leave(x)) /\ UNCHANGED <<nruns, nfault>>
MCRegister == \E c \in Cs : Op(Register(c)) /\ UNCHANGED <<nruns, nfault>>
MCUnregister == \E c \in Cs : Op(Unregister(c)) /\ UNCHANGED <<nruns, nfault>>
MCAgentReset == Op(AgentReset) /\ nruns > 0 /\ UNCHANGED <<nruns, nfault>>
MCOutputs == Op(Outputs) /\ ev.op # "outputs" /\ UNCHANGED <<nruns, nfault>>
MCBars == Op(Bars) /\ ev.op # "bars" /\ UNCHANGED <<nruns, nfault>>
MCBegin == nruns < Runs /\ (\E gv \in BOOLEAN : Op(Begin(0, {}, gv)) \/ \E x \in Explicit : Op(Begin(1, x, gv))) /\ nruns' = nruns + 1 /\ UNCHANGED nfault
MCMicro == Micro /\ Log /\ UNCHANGED <<nops, nruns, nfault>>
MCRaise == Raise /\ nfault < Faults /\ Log /\ nfault' = nfault + 1 /\ UNCHANGED <<nops, nruns>>
MCNext == MCEnter \/ MCLeave \/ MCRegister \/ MCUnregister \/ MCAgentReset \/ MCOutputs \/ MCBars \/ MCBegin \/ MCMicro \/ MCRaise
Spec == MCInit /\ [][MCNext]_<<vars, mc>>
Emit == (nops = Ops /\ Idle /\ nruns > 0) => PrintT("@@B " \o ToJson([c |-> cfg, h |-> hist]))
===============================================================================
