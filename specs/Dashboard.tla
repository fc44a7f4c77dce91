------------------------------- MODULE Dashboard -------------------------------
(* The data-flow tracker and the monitoring dashboard (wax.flax.visualization):     *)
(* each registered pipeline has a tracker that keeps its last max data points, in   *)
(* total and per module; the dashboard serves the latest points, metrics and alerts *)
(* of the pipelines and tells connected clients about each point and alert.         *)
(* Values are trees; what is served of them is compared as text.                    *)
EXTENDS Integers, Sequences, TLC
N == INSTANCE Num

VARIABLES cfg,      \* max: points kept; slow, big: thresholds; alerts, web: switches
          pipes,    \* registered pipelines in order, [id, calls, steps, start, hist, mods]
          metrics,  \* [exec, mem: one sequence per pipeline name, thru: sequence]
          alerts, clients, now,
          y         \* what a user sees after the operation
vars == <<cfg, pipes, metrics, alerts, clients, now, y>>

Ids == <<"a", "ab">>
Mods == <<"m", "n">>
NO == -1
Suffix(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))
Push(s, e, k) == Suffix(Append(s, e), k)
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Idx(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x

(* ---- values: [t, v, dims, keys, items] ---- *)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Join(Tail(s))
Ints(s) == "[" \o Join(Map(s, LAMBDA i : ToString(i))) \o "]"
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* an array has the items v, v + 2, v + 4, ... in row order
RECURSIVE Nested(_, _)
Nested(v, dims) == IF dims = <<>> THEN ToString(v)
                   ELSE "[" \o Join([i \in 1..dims[1] |-> Nested(v + 2 * (i - 1) * Prod(Tail(dims)), Tail(dims))]) \o "]"
Fl(n) == ToString(n) \o ".0"
IsArr(x) == x.t \in {"np", "jnp"}
IsSeq(x) == x.t \in {"list", "tuple"}
RECURSIVE Ser(_)
Ser(x) ==
  CASE IsArr(x) -> (LET n == Prod(x.dims) IN
         IF n <= 10 THEN Nested(x.v, x.dims)
         ELSE "{\"type\": \"array\", \"shape\": " \o Ints(x.dims) \o ", \"dtype\": \"int32\", \"min\": " \o Fl(x.v)
              \o ", \"max\": " \o Fl(x.v + 2 * (n - 1)) \o ", \"mean\": " \o Fl(x.v + n - 1) \o "}")
    [] x.t = "int" -> ToString(x.v)
    [] x.t = "float" -> ToString(x.v) \o ".5"
    [] x.t = "bool" -> IF x.v = 0 THEN "false" ELSE "true"
    [] x.t = "str" -> "\"s" \o ToString(x.v) \o "\""
    [] x.t = "dict" -> "{" \o Join([i \in 1..Len(x.keys) |-> "\"" \o x.keys[i] \o "\": " \o Ser(x.items[i])]) \o "}"
    [] IsSeq(x) /\ Len(x.items) <= 10 -> "[" \o Join(Map(x.items, Ser)) \o "]"
    [] IsSeq(x) /\ Len(x.items) > 10 -> "{\"type\": \"sequence\", \"length\": " \o ToString(Len(x.items)) \o "}"
    [] OTHER -> "{\"type\": \"NoneType\", \"str\": \"None\"}"
Dims(x) == IF IsArr(x) THEN x.dims ELSE IF IsSeq(x) \/ x.t = "dict" THEN <<Len(x.items)>> ELSE <<>>
Display(x) ==
  CASE x.t = "jnp" /\ Prod(x.dims) = 1 -> ToString(x.v) \o ".000"
    [] x.t = "jnp" /\ Prod(x.dims) # 1 -> "array" \o Ints(x.dims)
    [] x.t = "np" -> "ndarray"
    [] x.t = "int" -> ToString(x.v) \o ".000"
    [] x.t = "bool" -> IF x.v = 0 THEN "0.000" ELSE "1.000"
    [] x.t = "float" -> ToString(x.v) \o ".500"
    [] x.t = "dict" -> "dict(" \o ToString(Len(x.items)) \o " keys)"
    [] IsSeq(x) -> x.t \o "(" \o ToString(Len(x.items)) \o ")"
    [] x.t = "str" -> "str"
    [] OTHER -> "NoneType"
\* a value that can be drawn as a number, times two
Drawn(x) == x.t \in {"int", "float", "bool"} \/ (x.t = "jnp" /\ x.dims = <<>>)
Twice(x) == CASE x.t = "float" -> 2 * x.v + 1 [] x.t = "bool" -> (IF x.v = 0 THEN 0 ELSE 2) [] OTHER -> 2 * x.v

(* ---- trackers ---- *)
Fresh(id) == [id |-> id, calls |-> 0, steps |-> 0, start |-> now, hist |-> <<>>, mods |-> [i \in 1..Len(Mods) |-> <<>>]]
Has(id) == \E i \in 1..Len(pipes) : pipes[i].id = id
At(id) == CHOOSE i \in 1..Len(pipes) : pipes[i].id = id
Recorded(p, o, q) == [p EXCEPT !.hist = Push(@, q, cfg.max), !.mods[Idx(Mods, o.mod)] = Push(@, q, cfg.max)]
Cleared(p) == [Fresh(p.id) EXCEPT !.calls = p.calls]

(* ---- what is seen ---- *)
Shown(q) == [step |-> q.step, mod |-> q.mod, type |-> q.type, ts |-> q.ts, val |-> Ser(q.x), shape |-> Ints(Dims(q.x)), ms |-> q.ms, mem |-> q.mem]
Pipe(p) == [id |-> p.id, calls |-> p.calls, steps |-> p.steps, data |-> Map(Suffix(p.hist, 100), Shown),
            mods |-> Map(p.mods, LAMBDA h : Map(h, LAMBDA q : <<q.step, q.ts>>))]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Metric(s) == LET w == Suffix(s, 50) IN [n |-> Len(w), values |-> w, mean |-> IF w = <<>> THEN <<0, 0>> ELSE N!Q(Sum(w), Len(w))]
View(ps, ms, as, sent, got) ==
  [pipes |-> Map(ps, Pipe), exec |-> Map(ms.exec, Metric), mem |-> Map(ms.mem, Metric), thru |-> Suffix(ms.thru, 50), alerts |-> as, sent |-> sent, got |-> got]
Start == /\ pipes = <<>> /\ metrics = [exec |-> <<<<>>, <<>>>>, mem |-> <<<<>>, <<>>>>, thru |-> <<>>] /\ alerts = <<>> /\ clients = {} /\ now = 0
         /\ y = View(<<>>, [exec |-> <<<<>>, <<>>>>, mem |-> <<<<>>, <<>>>>, thru |-> <<>>], <<>>, <<>>, "")
Quiet == UNCHANGED <<cfg, metrics, alerts, clients, now>>

(* ---- operations ---- *)
RegOp(o) == /\ o.op = "reg"
            /\ pipes' = IF Has(o.id) THEN [pipes EXCEPT ![At(o.id)] = Fresh(o.id)] ELSE Append(pipes, Fresh(o.id))
            /\ Quiet /\ y' = View(pipes', metrics, alerts, <<>>, "")
Alert(id, type, v, t) == [type |-> type, id |-> id, at |-> t, value |-> v]
Event(kind, id, mod, type, val, step, v, t) == [kind |-> kind, id |-> id, mod |-> mod, type |-> type, val |-> val, step |-> step, value |-> v, at |-> t]
\* one point noted in the state s = [pipes, metrics, alerts, told, now]
Noted(s, o) ==
  LET i == CHOOSE j \in 1..Len(s.pipes) : s.pipes[j].id = o.id
      p == s.pipes[i]
      k == Idx(Ids, o.id)
      q == [step |-> p.steps, mod |-> o.mod, type |-> o.type, ts |-> s.now - p.start, x |-> o.val, ms |-> o.ms, mem |-> o.mem]
      slow == IF o.ms # NO /\ cfg.alerts /\ o.ms > cfg.slow THEN <<Alert(o.id, "performance", o.ms, s.now)>> ELSE <<>>
      big == IF o.mem # NO /\ cfg.alerts /\ o.mem > cfg.big THEN <<Alert(o.id, "memory", o.mem, s.now)>> ELSE <<>>
      told == Map(slow \o big, LAMBDA a : Event("alert", a.id, "", a.type, "", 0, a.value, s.now))
      point == IF clients = {} THEN <<>> ELSE <<Event("point", o.id, o.mod, o.type, Ser(o.val), p.steps, 0, s.now)>>
  IN  [pipes |-> [s.pipes EXCEPT ![i] = Recorded(p, o, q)],
       metrics |-> [exec |-> IF o.ms = NO THEN s.metrics.exec ELSE [s.metrics.exec EXCEPT ![k] = Append(@, o.ms)],
                    mem |-> IF o.mem = NO THEN s.metrics.mem ELSE [s.metrics.mem EXCEPT ![k] = Append(@, o.mem)],
                    thru |-> Append(s.metrics.thru, s.now)],
       alerts |-> Suffix(s.alerts \o slow \o big, 100),
       told |-> IF cfg.web THEN s.told \o told \o point ELSE <<>>,
       now |-> s.now]
Now == [pipes |-> pipes, metrics |-> metrics, alerts |-> alerts, told |-> <<>>, now |-> now]
Become(s, got) == /\ pipes' = s.pipes /\ metrics' = s.metrics /\ alerts' = s.alerts /\ now' = s.now /\ UNCHANGED <<cfg, clients>>
                  /\ y' = View(s.pipes, s.metrics, s.alerts, s.told, got)
RecOp(o) == o.op = "rec" /\ IF Has(o.id) THEN Become(Noted(Now, o), "") ELSE Become(Now, "warned")
\* n points, a tick apart
RECURSIVE Burst(_, _, _)
Burst(s, o, n) == IF n = 0 THEN s ELSE Burst([Noted(s, [o EXCEPT !.val.v = @ + n]) EXCEPT !.now = @ + 1], o, n - 1)
BurstOp(o) == o.op = "burst" /\ Has(o.id) /\ Become(Burst(Now, o, o.n), "")
RawOp(o) == /\ o.op = "raw" /\ Has(o.id)
            /\ LET p == pipes[At(o.id)] IN
               pipes' = [pipes EXCEPT ![At(o.id)] = Recorded(p, o, [step |-> p.steps, mod |-> o.mod, type |-> o.type, ts |-> now - p.start, x |-> o.val, ms |-> o.ms, mem |-> o.mem])]
            /\ Quiet /\ y' = View(pipes', metrics, alerts, <<>>, "")
StepOp(o) == /\ o.op = "step"
             /\ pipes' = IF ~Has(o.id) THEN pipes ELSE [pipes EXCEPT ![At(o.id)].steps = @ + 1, ![At(o.id)].calls = IF o.raw THEN @ ELSE @ + 1]
             /\ Quiet /\ y' = View(pipes', metrics, alerts, <<>>, "")
ClearOp(o) == /\ o.op = "clear" /\ Has(o.id)
              /\ pipes' = [pipes EXCEPT ![At(o.id)] = Cleared(@)]
              /\ Quiet /\ y' = View(pipes', metrics, alerts, <<>>, "")
ConnectOp(o) == /\ o.op = "connect"
                /\ clients' = IF o.on THEN clients \cup {o.c} ELSE clients \ {o.c}
                /\ UNCHANGED <<cfg, pipes, metrics, alerts, now>>
                /\ y' = View(pipes, metrics, alerts, <<>>, IF o.on THEN "status" ELSE "")
SubOp(o) == /\ o.op = "sub" /\ Quiet /\ UNCHANGED pipes
            /\ y' = View(pipes, metrics, alerts, <<>>, IF Has(o.id) THEN "pipeline_subscribed" ELSE "error")
WaitOp(o) == /\ o.op = "wait" /\ now' = now + o.t /\ UNCHANGED <<cfg, pipes, metrics, alerts, clients>>
             /\ y' = View(pipes, metrics, alerts, <<>>, "")
(* ---- the text and the curves drawn of the latest points ---- *)
Line(q) == ToString(q.step) \o "|" \o q.mod \o "|" \o q.type \o "|" \o Display(q.x)
Count(P(_), s) == Len(SelectSeq(s, P))
TextOf(p) ==
  LET w == Suffix(p.hist, 20)
      used == SelectSeq(Mods, LAMBDA m : \E i \in 1..Len(w) : w[i].mod = m)
      types == SelectSeq(<<"input", "output", "state">>, LAMBDA m : \E i \in 1..Len(w) : w[i].type = m)
  IN  IF w = <<>> THEN "nothing"
      ELSE ToString(Len(used)) \o ";" \o Join(types) \o ";" \o ToString(p.steps) \o ";" \o ToString(Len(w)) \o ";" \o Join(Map(Suffix(w, 10), Line))
Curve(w, m, F(_)) == Join(Map(SelectSeq(w, LAMBDA q : q.mod = m), LAMBDA q : ToString(q.step) \o ":" \o ToString(F(q))))
PlotOf(p, k) ==
  LET w == Suffix(p.hist, k)
      nums == SelectSeq(w, LAMBDA q : Drawn(q.x))
  IN  Join(Map(Mods, LAMBDA m : m \o "=" \o Curve(nums, m, LAMBDA q : Twice(q.x)) \o "/" \o Curve(w, m, LAMBDA q : Prod(Dims(q.x)))
                                \o "/" \o Join(Map(SelectSeq(w, LAMBDA q : q.mod = m), LAMBDA q : ToString(q.ts) \o q.type))))
DrawOp(o) == /\ o.op = "draw" /\ Has(o.id) /\ Quiet /\ UNCHANGED pipes
             /\ y' = View(pipes, metrics, alerts, <<>>, IF o.how = "text" THEN TextOf(pipes[At(o.id)]) ELSE PlotOf(pipes[At(o.id)], o.max))
Step(o) == RegOp(o) \/ RecOp(o) \/ BurstOp(o) \/ RawOp(o) \/ StepOp(o) \/ ClearOp(o) \/ ConnectOp(o) \/ SubOp(o) \/ WaitOp(o) \/ DrawOp(o)

(* ---- properties ---- *)
Bounded == /\ \A i \in 1..Len(pipes) : Len(pipes[i].hist) <= cfg.max /\ \A k \in 1..Len(Mods) : Len(pipes[i].mods[k]) <= cfg.max
           /\ Len(alerts) <= 100
Unique == \A i, j \in 1..Len(pipes) : pipes[i].id = pipes[j].id => i = j
Ordered == \A i \in 1..Len(pipes) : LET h == pipes[i].hist IN \A k \in 1..(Len(h) - 1) : h[k].ts <= h[k + 1].ts /\ h[k].step <= h[k + 1].step
\* the latest points in total are the latest ones of the modules
Consistent == \A i \in 1..Len(pipes) : \A k \in 1..Len(Mods) :
                LET own == SelectSeq(pipes[i].hist, LAMBDA q : q.mod = Mods[k]) IN own = Suffix(pipes[i].mods[k], Len(own))
Justified == \A i \in 1..Len(alerts) : LET a == alerts[i] IN cfg.alerts /\ a.value > (IF a.type = "memory" THEN cfg.big ELSE cfg.slow)
\* only its own operations touch a pipeline
Isolated == [][\A i \in 1..Len(pipes) : \E j \in 1..Len(pipes') : pipes'[j].id = pipes[i].id /\ j = i]_vars
================================================================================
