------------------------------ MODULE GymCallbacks ------------------------------
(* gym_unroll, the callback contexts, Record, Stop, HaikuEnv and HaikuAgent.        *)
(* Callbacks: A has every hook; B has on_step and on_train_end; S stops from its    *)
(* second step on; R records; N has on_train_start, in which it runs an unrelated   *)
(* gym loop.  The environment replays cfg.data: obs = raw + e, reward = action - e, *)
(* e' = e + 1, e = 0 after a reset; the agent answers 2 obs + g, g' = g + 1, g = 0  *)
(* after its reset.  Every transition emits an event [op, s: callbacks, v: values]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, active, stack, pc, cbs, saved, explicit, pos, e, g, stopn, rec, bars, obs, action, rw, done, ask, ev
vars == <<cfg, active, stack, pc, cbs, saved, explicit, pos, e, g, stopn, rec, bars, obs, action, rw, done, ask, ev>>
CB == {"A", "B", "S", "R", "P", "N"}
Hooks == [start |-> {"A", "N", "P"}, onact |-> {"A"}, onstep |-> {"A", "B", "S", "R", "P"}, end |-> {"A", "B", "P"}]
None == -1000        \* no observation (the environment is exhausted)
Ev(op, s, v) == [op |-> op, s |-> s, v |-> v]
Start == /\ active = {} /\ stack = <<>> /\ pc = "idle" /\ cbs = {} /\ saved = {} /\ explicit = FALSE /\ pos = 0
         /\ e = 0 /\ g = 0 /\ stopn = 0 /\ rec = <<>> /\ bars = <<>> /\ obs = 0 /\ action = 0 /\ rw = 0 /\ done = FALSE /\ ask = FALSE
         /\ ev = Ev("", {}, <<>>)
B01(b) == IF b THEN 1 ELSE 0
Idle == pc = "idle"
RunVars == <<pc, cbs, saved, explicit, pos, e, g, stopn, rec, bars, obs, action, rw, done, ask>>

(* contexts *)
Enter(c) == /\ Idle /\ c \notin active /\ active' = active \cup {c} /\ stack' = Append(stack, c)
            /\ ev' = Ev("enter", {c}, <<>>) /\ UNCHANGED <<cfg, RunVars>>
\* a context is left normally (0) or through an exception (1)
Leave(x) == /\ Idle /\ stack # <<>>
            /\ LET c == stack[Len(stack)] IN active' = active \ {c} /\ ev' = Ev("leave", {c}, <<x>>)
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<cfg, RunVars>>
Register(c) == /\ Idle /\ c \notin active /\ active' = active \cup {c}
               /\ ev' = Ev("register", {c}, <<>>) /\ UNCHANGED <<cfg, stack, RunVars>>
Unregister(c) == /\ Idle /\ c \in active /\ \A i \in 1..Len(stack) : stack[i] # c
                 /\ active' = active \ {c}
                 /\ ev' = Ev("unregister", {c}, <<>>) /\ UNCHANGED <<cfg, stack, RunVars>>
AgentReset == /\ Idle /\ g' = 0 /\ ev' = Ev("areset", {}, <<>>)
              /\ UNCHANGED <<cfg, active, stack, pc, cbs, saved, explicit, pos, e, stopn, rec, bars, obs, action, rw, done, ask>>
Outputs == /\ Idle /\ rec # <<>> /\ ev' = Ev("outputs", {}, rec) /\ UNCHANGED <<cfg, active, stack, RunVars>>

Bars == /\ Idle /\ bars # <<>> /\ ev' = Ev("bars", {}, bars) /\ UNCHANGED <<cfg, active, stack, RunVars>>
\* the bars, [steps counted, closed]; a run whose bar was never closed is taken over by the next one
Opened(b) == IF b = <<>> \/ b[Len(b)][2] = 1 THEN Append(b, <<0, 0>>) ELSE b

(* a run: with given callbacks (x = 1) or the active ones; from a given observation or from a reset *)
Begin(x, cs, given) ==
  /\ Idle /\ (given \/ pos < Len(cfg.data))
  /\ cbs' = (IF x = 1 THEN cs ELSE active) /\ explicit' = (x = 1)
  /\ saved' = active /\ active' = (IF x = 1 THEN active ELSE {})
  /\ pc' = (IF given THEN "start" ELSE "reset") /\ obs' = 0
  /\ ev' = Ev("run", IF x = 1 THEN cs ELSE {}, <<x, B01(given)>>)
  /\ UNCHANGED <<cfg, stack, pos, e, g, stopn, rec, bars, action, rw, done, ask>>
Reset == /\ pc = "reset" /\ pos < Len(cfg.data)
         /\ obs' = cfg.data[pos + 1] /\ pos' = pos + 1 /\ e' = 0 /\ pc' = "start"
         /\ ev' = Ev("reset", {}, <<obs'>>)
         /\ UNCHANGED <<cfg, active, stack, cbs, saved, explicit, g, stopn, rec, bars, action, rw, done, ask>>
On(h) == cbs \cap Hooks[h]
TrainStart == /\ pc = "start" /\ pc' = "act" /\ bars' = (IF "P" \in cbs THEN Opened(bars) ELSE bars) /\ ev' = Ev("start", On("start"), <<obs>>)
              /\ UNCHANGED <<cfg, active, stack, cbs, saved, explicit, pos, e, g, stopn, rec, obs, action, rw, done, ask>>
Act == /\ pc = "act" /\ pc' = "onact" /\ action' = 2 * obs + g /\ g' = g + 1
       /\ ev' = Ev("act", {}, <<obs, action'>>)
       /\ UNCHANGED <<cfg, active, stack, cbs, saved, explicit, pos, e, stopn, rec, bars, obs, rw, done, ask>>
OnAct == /\ pc = "onact" /\ pc' = "step" /\ ev' = Ev("onact", On("onact"), <<obs, action>>)
         /\ UNCHANGED <<cfg, active, stack, cbs, saved, explicit, pos, e, g, stopn, rec, bars, obs, action, rw, done, ask>>
EnvStep == /\ pc = "step" /\ pc' = "onstep"
           /\ IF pos < Len(cfg.data)
              THEN obs' = cfg.data[pos + 1] + e /\ rw' = action - e /\ done' = FALSE /\ pos' = pos + 1 /\ e' = e + 1
              ELSE obs' = None /\ rw' = 0 /\ done' = TRUE /\ UNCHANGED <<pos, e>>
           /\ ev' = Ev("step", {}, <<action, rw', obs', B01(done')>>)
           /\ UNCHANGED <<cfg, active, stack, cbs, saved, explicit, g, stopn, rec, bars, action, ask>>
OnStep == /\ pc = "onstep"
          /\ ev' = Ev("onstep", On("onstep"), <<rw, obs, action, B01(done)>>)
          /\ stopn' = stopn + B01("S" \in cbs)
          /\ rec' = (IF "R" \in cbs /\ ~done THEN Append(rec, <<rw, obs, action>>) ELSE rec)
          /\ bars' = (IF "P" \in cbs THEN [bars EXCEPT ![Len(bars)][1] = @ + 1] ELSE bars)
          /\ ask' = ("S" \in cbs /\ stopn' >= 2)
          /\ pc' = (IF done \/ ask' THEN "end" ELSE "act")
          /\ UNCHANGED <<cfg, active, stack, cbs, saved, explicit, pos, e, g, obs, action, rw, done>>
TrainEnd == /\ pc = "end" /\ pc' = "close" /\ bars' = (IF "P" \in cbs THEN [bars EXCEPT ![Len(bars)][2] = 1] ELSE bars) /\ ev' = Ev("end", On("end"), <<>>)
            /\ UNCHANGED <<cfg, active, stack, cbs, saved, explicit, pos, e, g, stopn, rec, obs, action, rw, done, ask>>
Close == /\ pc = "close" /\ pc' = "return" /\ ev' = Ev("close", {}, <<>>)
         /\ UNCHANGED <<cfg, active, stack, cbs, saved, explicit, pos, e, g, stopn, rec, bars, obs, action, rw, done, ask>>
Return == /\ pc = "return" /\ pc' = "idle" /\ active' = (IF explicit THEN active ELSE saved)
          /\ ev' = Ev("return", {}, <<rw, obs, action, B01(done)>>)
          /\ UNCHANGED <<cfg, stack, cbs, saved, explicit, pos, e, g, stopn, rec, bars, obs, action, rw, done, ask>>
\* the agent, the environment or (the only callback concerned) A raises: the run is abandoned
Raise == /\ pc \in {"act", "step"} \/ (pc \in {"start", "onact", "onstep", "end"} /\ On(pc) = {"A"})
         /\ pc' = "idle" /\ active' = (IF explicit THEN active ELSE saved)
         /\ ev' = Ev("raise", {}, <<pc>>)
         /\ UNCHANGED <<cfg, stack, cbs, saved, explicit, pos, e, g, stopn, rec, bars, obs, action, rw, done, ask>>
Micro == Reset \/ TrainStart \/ Act \/ OnAct \/ EnvStep \/ OnStep \/ TrainEnd \/ Close \/ Return
Silent == ev'.op \in {"start", "onact", "onstep", "end"} /\ ev'.s = {}
-------------------------------------------------------------------------------
\* the active callbacks are those whose context is open or that are registered, run or not
InContext == \A i \in 1..Len(stack) : stack[i] \in (IF pc = "idle" \/ explicit THEN active ELSE saved)
Hidden == pc # "idle" /\ ~explicit => active = {}
Restored == [][pc # "idle" /\ pc' = "idle" => active' = IF explicit THEN active ELSE saved]_vars
\* at most the last bar is open, and outside of runs none is (unless a run was abandoned)
OneBar == \A i \in 1..(Len(bars) - 1) : bars[i][2] = 1
Stops == pc \in {"end", "close", "return"} => done \/ ask
===============================================================================
