------------------------------ MODULE TraceEncode ------------------------------
EXTENDS Encode, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ Start
E == T[tid].ev[l + 1]
\* what the code answered: the words of the number, the number itself, an order, a floor (q: the multiple)
Step == CASE E.op = "put" -> Put(E.r) /\ fail' = ""
          [] E.op = "encode" -> Enc /\ fail' = IF E.r = res' THEN "" ELSE "Words"
          [] E.op = "decode" -> Dec /\ fail' = IF E.r = res' THEN "" ELSE "RoundTrip"
          [] E.op = "less" -> Cmp /\ fail' = IF E.r = res' THEN "" ELSE "Order"
          [] E.op = "floor" -> IF IsFloor(a, E.r, E.q) THEN Flr(E.q, E.r) /\ fail' = "" ELSE UNCHANGED vars /\ fail' = "Floor"
TraceNext == fail = "" /\ l < Len(T[tid].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> ToString(res)]))
================================================================================
