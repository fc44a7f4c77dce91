------------------------------- MODULE Debugger -------------------------------
(* The streaming debugger (wax.flax.debug.debugger): a bounded history of states, *)
(* performance data and hooks that trigger when their condition holds.            *)
(* Steps carry a state value s, an input v and an execution time t in ms          *)
(* (No = absent).  All values are integers.                                       *)
EXTENDS Integers, Sequences

VARIABLES cfg,     \* track, perf: what is tracked; max: length of the history
          on, count, past, times, hooks,
          y        \* what a user sees after the operation
vars == <<cfg, on, count, past, times, hooks, y>>

No == -99
Abs(i) == IF i < 0 THEN -i ELSE i
Push(s, e, k) == IF k = 0 THEN <<>> ELSE IF Len(s) < k THEN Append(s, e) ELSE Append(Tail(s), e)

\* a hook: name [via, base], cond, p (parameter), act, max, on, hits, ev, last (value a change detector refers to)
NewHook(o) == [via |-> o.via, base |-> o.base, cond |-> o.cond, p |-> o.p, act |-> o.act, max |-> o.max, on |-> TRUE, hits |-> 0, ev |-> <<>>, last |-> No]
SameName(h, o) == h.via = o.via /\ h.base = o.base
Find(o) == {i \in 1..Len(hooks) : SameName(hooks[i], o)}

Holds(h, n, e, pf) ==
  CASE h.cond = "never" -> FALSE
    [] h.cond = "above" -> e.v # No /\ e.v > h.p
    [] h.cond = "every" -> n % h.p = 0
    [] h.cond = "change" -> h.last # No /\ e.s # No /\ Abs(e.s - h.last) > h.p
    [] h.cond = "slow" -> pf /\ e.t # No /\ e.t > h.p
    [] h.cond = "fails" -> FALSE          \* the condition raises
Checked(h, n, e, pf) ==    \* the hook after it was asked about the step
  LET fire == h.on /\ Holds(h, n, e, pf)
      l == IF h.on /\ h.cond = "change" /\ e.s # No /\ (h.last = No \/ fire) THEN e.s ELSE h.last
      event == [step |-> n, brk |-> (h.act = "break"), s |-> e.s, v |-> e.v, t |-> e.t]
  IN  [h EXCEPT !.last = l, !.hits = IF fire THEN h.hits + 1 ELSE h.hits, !.ev = IF fire THEN Push(h.ev, event, h.max) ELSE h.ev]
Fires(h, n, e, pf) == h.on /\ Holds(h, n, e, pf)
\* a user who quits at a breakpoint interrupts the step: the hooks after it are not asked
RECURSIVE Ask(_, _, _, _, _)
Ask(hs, n, e, pf, quit) ==
  IF hs = <<>> THEN <<>>
  ELSE <<Checked(Head(hs), n, e, pf)>> \o (IF quit /\ Head(hs).act = "break" /\ Fires(Head(hs), n, e, pf) THEN Tail(hs) ELSE Ask(Tail(hs), n, e, pf, quit))
Quits(hs, n, e, pf, quit) == quit /\ \E i \in 1..Len(hs) : hs[i].act = "break" /\ Fires(hs[i], n, e, pf)

View(c, h, ts, hk, intr) ==
  [total |-> c, past |-> h, times |-> ts, intr |-> intr,
   hooks |-> [i \in 1..Len(hk) |-> [via |-> hk[i].via, base |-> hk[i].base, on |-> hk[i].on, hits |-> hk[i].hits, ev |-> hk[i].ev]]]
See(intr) == y' = View(count', past', times', hooks', intr)

Start == on = TRUE /\ count = 0 /\ past = <<>> /\ times = <<>> /\ hooks = <<>> /\ y = View(0, <<>>, <<>>, <<>>, FALSE)

StepOp(o) ==
  /\ o.op = "step"
  /\ IF on
     THEN /\ count' = count + 1
          /\ past' = IF cfg.track THEN Push(past, o.s, cfg.max) ELSE past
          /\ times' = IF cfg.perf /\ o.t # No THEN Append(times, [t |-> o.t, step |-> count + 1]) ELSE times
          /\ hooks' = Ask(hooks, count + 1, o, cfg.perf, o.quit)
          /\ See(Quits(hooks, count + 1, o, cfg.perf, o.quit))
     ELSE UNCHANGED <<count, past, times, hooks>> /\ See(FALSE)
  /\ UNCHANGED <<cfg, on>>
Switch(o) == /\ o.op = "switch" /\ on' = o.to /\ UNCHANGED <<cfg, count, past, times, hooks>> /\ See(FALSE)
AddHook(o) == /\ o.op = "add"
              /\ hooks' = IF Find(o) = {} THEN Append(hooks, NewHook(o)) ELSE [i \in 1..Len(hooks) |-> IF i \in Find(o) THEN NewHook(o) ELSE hooks[i]]
              /\ UNCHANGED <<cfg, on, count, past, times>> /\ See(FALSE)
RemoveHook(o) == /\ o.op = "remove" /\ hooks' = SelectSeq(hooks, LAMBDA h : ~SameName(h, o))
                 /\ UNCHANGED <<cfg, on, count, past, times>> /\ See(FALSE)
SwitchHook(o) == /\ o.op = "hook" /\ hooks' = [i \in 1..Len(hooks) |-> IF i \in Find(o) THEN [hooks[i] EXCEPT !.on = o.to] ELSE hooks[i]]
                 /\ UNCHANGED <<cfg, on, count, past, times>> /\ See(FALSE)
Clear(o) == /\ o.op = "clear" /\ past' = <<>> /\ times' = <<>> /\ hooks' = [i \in 1..Len(hooks) |-> [hooks[i] EXCEPT !.ev = <<>>, !.hits = 0]]
            /\ UNCHANGED <<cfg, on, count>> /\ See(FALSE)
\* the caller changes the arrays it passed, in place; or the computation it debugs raises
Others(o) == /\ o.op \in {"mutate", "raise"} /\ UNCHANGED <<cfg, on, count, past, times, hooks>> /\ See(FALSE)
Step(o) == StepOp(o) \/ Switch(o) \/ AddHook(o) \/ RemoveHook(o) \/ SwitchHook(o) \/ Clear(o) \/ Others(o)
-------------------------------------------------------------------------------
Bounded == Len(past) <= cfg.max /\ \A i \in 1..Len(hooks) : Len(hooks[i].ev) <= hooks[i].max
Names == \A i, j \in 1..Len(hooks) : SameName(hooks[i], hooks[j]) => i = j
HitsKept == \A i \in 1..Len(hooks) : /\ Len(hooks[i].ev) = (IF hooks[i].hits < hooks[i].max THEN hooks[i].hits ELSE hooks[i].max)
                                     /\ \A k \in 1..Len(hooks[i].ev) : /\ hooks[i].ev[k].step <= count
                                                                       /\ k > 1 => hooks[i].ev[k - 1].step < hooks[i].ev[k].step
Off == [][~on => count' = count /\ past' \in {past, <<>>} /\ times' \in {times, <<>>}]_vars
===============================================================================
