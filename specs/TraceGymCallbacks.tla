--------------------------- MODULE TraceGymCallbacks ---------------------------
EXTENDS GymCallbacks, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg /\ Start
O == T[tid].ev[l + 1]
Set(s) == {s[i] : i \in 1..Len(s)}
C == O.s[1]
More == l < Len(T[tid].ev) /\ fail = ""
\* what the caller does
Input == /\ Idle
         /\ \/ O.op = "enter" /\ Enter(C)
            \/ O.op = "leave" /\ Leave(O.v[1])
            \/ O.op = "register" /\ Register(C)
            \/ O.op = "unregister" /\ Unregister(C)
            \/ O.op = "areset" /\ AgentReset
            \/ O.op = "outputs" /\ Outputs
            \/ O.op = "bars" /\ Bars
            \/ O.op = "run" /\ Begin(O.v[1], Set(O.s), O.v[2] = 1)
Next1 == Input \/ (~Idle /\ IF O.op = "raise" /\ O.v[1] = pc THEN Raise ELSE Micro)
Match == /\ O.op = ev'.op /\ Set(O.s) = ev'.s /\ Len(O.s) = Cardinality(ev'.s) /\ O.v = ev'.v
TraceStep == /\ More /\ Next1
             /\ IF Silent THEN UNCHANGED <<l, fail>>
                ELSE /\ l' = l + 1
                     /\ fail' = IF Match THEN "" ELSE IF O.op # ev'.op THEN "Order" ELSE "Event"
             /\ UNCHANGED tid
\* an event that the specification does not allow here
TraceStuck == /\ More /\ ~ENABLED Next1 /\ fail' = "Unexpected" /\ l' = l + 1 /\ UNCHANGED <<vars, tid>>
TraceNext == TraceStep \/ TraceStuck
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> ev]))
================================================================================
