---------------------------- MODULE TraceProfiler ----------------------------
EXTENDS Profiler, TLC, Json, IOUtils
VARIABLES tid, l, fail
T == ndJsonDeserialize(IOEnv.TRACE_FILE)
TraceInit == tid \in 1..Len(T) /\ l = 0 /\ fail = "" /\ cfg = T[tid].cfg /\ Start
Ev == T[tid].ev[l + 1]
Flag(want, got) == want = 2 \/ want = got
Agrees(a, b) ==      \* a: seen, b: specified
  /\ [a EXCEPT !.advice = 0] = [b EXCEPT !.advice = 0]
  /\ Flag(b.advice.time, a.advice.time)
  /\ a.advice.alloc = b.advice.alloc /\ a.advice.jit = b.advice.jit /\ a.advice.large = b.advice.large
  /\ \A i \in 1..Len(Mods) : Flag(b.advice.mods[i], a.advice.mods[i])
TraceStep == /\ l < Len(T[tid].ev) /\ fail = ""
             /\ Step(Ev.o)
             /\ fail' = IF Ev.seen => Agrees(Ev.y, y') THEN "" ELSE "Report"
             /\ l' = l + 1 /\ UNCHANGED tid
TraceNext == TraceStep
Done == fail # "" \/ l = Len(T[tid].ev)
Verdict == Done => PrintT("@@V " \o ToJson([id |-> T[tid].id, n |-> l, fail |-> fail, exp |-> y]))
================================================================================
