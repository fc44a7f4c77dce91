------------------------------- MODULE TraceCodec -------------------------------
EXTENDS Codec, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg /\ Start
E == T[tid].ev[l + 1]
Step == IF E.op = "encode" THEN Encode(E.sel) ELSE Decode(E.sel)
TraceNext == /\ fail = "" /\ l < Len(T[tid].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
             /\ fail' = IF E.r = out' THEN "" ELSE IF E.op = "encode" THEN "Codes" ELSE "RoundTrip"
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> out]))
================================================================================
