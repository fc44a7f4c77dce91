----------------------------- MODULE StatePatterns -----------------------------
(* Composed state patterns (wax.flax.core.advanced_state_patterns).                *)
(*   hsm        components run once a step, after the components they depend on,   *)
(*              each on the inputs of the step; "hierarchical" coordination blends *)
(*              the answers with those of the higher levels                        *)
(*   composite  components in a pipeline, in parallel or in a hierarchy            *)
(*   attention  a bounded history of embeddings and what the current one attends to*)
(* A component is an accumulator: it adds what it receives and answers multiples   *)
(* of its total, under its keys or bare.                                           *)
EXTENDS Integers, Sequences, Num

VARIABLES cfg,
          acc,    \* totals of the components
          raw,    \* answers of the components in the current step
          done,   \* components that ran in the current step, in order
          mem,    \* attention: embeddings of the last steps, oldest first
          n,      \* steps
          out
vars == <<cfg, acc, raw, done, mem, n, out>>

Comp == 1..Len(cfg.comps)
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))

\* ---- components
Fails(c, x) == c.fail = "always" \/ (c.fail = "neg" /\ Lt(x, Zero))
\* answer: ok, bare, and the value of each key
Ans(c, total) == [ok |-> TRUE, bare |-> c.bare, keys |-> c.keys, vals |-> [i \in 1..Len(c.a) |-> Mul(c.a[i], total)]]
Failed(c) == [ok |-> FALSE, bare |-> c.bare, keys |-> c.keys, vals |-> [i \in 1..Len(c.a) |-> NaN]]
None == [ok |-> FALSE, bare |-> TRUE, keys |-> <<>>, vals |-> <<>>]

\* ---- hsm
Deps(i) == Range(cfg.comps[i].deps) \cap Comp
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup UNION {Deps(i) : i \in S}, k - 1)
Acyclic == \A i \in Comp : i \notin Reach(Deps(i), Len(cfg.comps))
Ready(i) == i \notin Range(done) /\ (Acyclic => Deps(i) \subseteq Range(done))
Run(i, x) ==
  /\ Ready(i)
  /\ done' = Append(done, i)
  /\ LET c == cfg.comps[i]
         total == Add(acc[i], x)
     IN  IF Fails(c, x) THEN acc' = acc /\ raw' = [raw EXCEPT ![i] = Failed(c)]
         ELSE acc' = [acc EXCEPT ![i] = total] /\ raw' = [raw EXCEPT ![i] = Ans(c, total)]
RECURSIVE Depth(_)
RECURSIVE MaxDepth(_)
MaxDepth(S) == IF S = {} THEN -1 ELSE LET i == CHOOSE i \in S : TRUE  d == Depth(i)  r == MaxDepth(S \ {i}) IN IF d > r THEN d ELSE r
Depth(i) == 1 + MaxDepth(Deps(i))
KeyAt(a, k) == CHOOSE i \in 1..Len(a.keys) : a.keys[i] = k
Blend(lo, hi) ==
  IF ~lo.ok \/ lo.bare \/ ~hi.ok \/ hi.bare THEN lo
  ELSE [lo EXCEPT !.vals = [i \in 1..Len(lo.vals) |->
          IF lo.keys[i] \in Range(hi.keys) THEN Add(Mul(<<9, 10>>, lo.vals[i]), Mul(<<1, 10>>, hi.vals[KeyAt(hi, lo.keys[i])])) ELSE lo.vals[i]]]
RECURSIVE BlendAll(_, _)
BlendAll(a, his) == IF his = <<>> THEN a ELSE BlendAll(Blend(a, Head(his)), Tail(his))
\* components of a smaller depth, the highest level first, in declaration order inside a level
RECURSIVE AtDepth(_, _)
AtDepth(d, k) == IF k > Len(cfg.comps) THEN <<>> ELSE (IF Depth(k) = d THEN <<k>> ELSE <<>>) \o AtDepth(d, k + 1)
RECURSIVE Above(_, _)
Above(d, k) == IF k >= d THEN <<>> ELSE AtDepth(k, 1) \o Above(d, k + 1)
RECURSIVE Coord(_, _)
Coord(r, i) == LET up == Above(Depth(i), 0) IN BlendAll(r[i], [k \in 1..Len(up) |-> Coord(r, up[k])])
Coordinate(r) == IF cfg.strat = "hierarchical" THEN [i \in Comp |-> Coord(r, i)] ELSE r
FlatAns(r) == Join([i \in Comp |-> r[i].vals])

\* ---- composite
\* data: a number or a dictionary
NumD(v) == [dict |-> FALSE, keys |-> <<>>, vals |-> <<v>>]
DataOf(a) == IF a.bare THEN NumD(a.vals[1]) ELSE [dict |-> TRUE, keys |-> a.keys, vals |-> a.vals]
Merge(d, e) == \* entries of e replace those of d
  LET keep == SelectSeq([i \in 1..Len(d.keys) |-> i], LAMBDA i : d.keys[i] \notin Range(e.keys))
  IN  [dict |-> TRUE, keys |-> [i \in 1..Len(keep) |-> d.keys[keep[i]]] \o e.keys, vals |-> [i \in 1..Len(keep) |-> d.vals[keep[i]]] \o e.vals]
Read(d, k) == IF ~d.dict THEN d.vals[1] ELSE IF k \in Range(d.keys) THEN d.vals[KeyAt(d, k)] ELSE Zero
NextData(d, a) ==
  CASE cfg.strat = "pipeline" -> IF d.dict /\ ~a.bare THEN Merge(d, DataOf(a)) ELSE DataOf(a)
    [] cfg.strat = "parallel" -> d
    [] cfg.strat = "hierarchical" -> IF ~a.bare /\ "influence" \in Range(a.keys) THEN NumD(a.vals[KeyAt(a, "influence")]) ELSE d
RECURSIVE Chain(_, _, _)   \* (totals, answers) of the components from k on, on data d
Chain(k, d, s) ==
  IF k > Len(cfg.comps) THEN s
  ELSE LET c == cfg.comps[k]
           total == Add(s.acc[k], Read(d, c.read))
           a == Ans(c, total)
       IN  Chain(k + 1, NextData(d, a), [acc |-> [s.acc EXCEPT ![k] = total], raw |-> [s.raw EXCEPT ![k] = a]])
\* the input of a composite: a number, or a dictionary of the declared keys
Input(x) == IF cfg.inkeys = <<>> THEN NumD(x[1]) ELSE [dict |-> TRUE, keys |-> cfg.inkeys, vals |-> [i \in 1..Len(cfg.inkeys) |-> x[i]]]

\* ---- attention
E == cfg.embed
Embed(x) == [i \in 1..E |-> IF i <= Len(x) THEN x[i] ELSE Zero]
Dot(a, b, S) == SumSeq([i \in 1..E |-> IF i \in S THEN Mul(a[i], b[i]) ELSE Zero])
Head1(i) == LET w == E \div cfg.heads IN {k \in 1..E : (k - 1) \div w = (i - 1) \div w}
Best(q, S) == {t \in 1..Len(mem) : \A u \in 1..Len(mem) : Le(Dot(q, mem[u], S), Dot(q, mem[t], S))}
RECURSIVE MeanOver(_, _)
SumOver(T, i) == SumSeq([t \in 1..Len(mem) |-> IF t \in T THEN mem[t][i] ELSE Zero])
MeanOver(T, i) == Div(SumOver(T, i), I(Cardinality(T)))
\* each head attends to the items closest to the query: those of the largest product
Context(q) == [i \in 1..E |-> MeanOver(Best(q, Head1(i)), i)]
PadRows(rows, k) == Join([t \in 1..k |-> IF t <= Len(rows) THEN rows[t] ELSE [i \in 1..E |-> I(-77)]])
Weights(m, w, k) == [t \in 1..k |-> IF t <= m THEN w ELSE I(-77)]
ZeroRow == [i \in 1..E |-> Zero]
Attend(e, use) ==
  LET on == use # Zero /\ Len(mem) > 1
      L == cfg.len
      enh == IF on THEN [i \in 1..E |-> Add(e[i], Mul(<<1, 10>>, Context(e)[i]))] ELSE e
      m == IF on THEN Len(mem) ELSE 1
  IN  enh \o e \o <<I(m)>> \o Weights(m, IF on THEN Q(1, m) ELSE Zero, L) \o PadRows(IF on THEN mem ELSE <<ZeroRow>>, L)
Remember(e) == IF Len(mem) < cfg.len THEN Append(mem, e) ELSE Append(Tail(mem), e)
\* the history afterwards, as get_relevant_states(top_k = k) returns it
Relevant(m, k) == LET j == IF Len(m) < k THEN Len(m) ELSE k
                  IN  <<I(j)>> \o Weights(j, Q(1, Len(m)), k) \o PadRows(SubSeq(m, 1, j), k)

\* ---- steps
Start == /\ acc = [i \in Comp |-> Zero] /\ raw = [i \in Comp |-> None] /\ done = <<>> /\ mem = <<>> /\ n = 0 /\ out = <<>>
\* hsm: one component runs
StepRun(i, x) == cfg.kind = "hsm" /\ Run(i, x[1]) /\ UNCHANGED <<cfg, mem, n, out>>
\* hsm: the step ends
StepEnd == /\ cfg.kind = "hsm" /\ Len(done) = Len(cfg.comps)
           /\ out' = FlatAns(Coordinate(raw)) \o [i \in Comp |-> I(n + 1)]
           /\ done' = <<>> /\ raw' = [i \in Comp |-> None] /\ n' = n + 1 /\ UNCHANGED <<cfg, acc, mem>>
\* hsm: a whole step at once, whatever the order
AnsAll(x) == [i \in Comp |-> IF Fails(cfg.comps[i], x) THEN Failed(cfg.comps[i]) ELSE Ans(cfg.comps[i], Add(acc[i], x))]
StepHsm(x) == /\ cfg.kind = "hsm" /\ done = <<>>
              /\ acc' = [i \in Comp |-> IF Fails(cfg.comps[i], x[1]) THEN acc[i] ELSE Add(acc[i], x[1])]
              /\ out' = FlatAns(Coordinate(AnsAll(x[1]))) \o [i \in Comp |-> I(n + 1)]
              /\ n' = n + 1 /\ UNCHANGED <<cfg, raw, done, mem>>
Allowed(o) == /\ Len(o) = Len(cfg.comps) /\ Range(o) = Comp
              /\ Acyclic => \A k \in 1..Len(o) : Deps(o[k]) \subseteq {o[j] : j \in 1..(k - 1)}
StepComposite(x) ==
  /\ cfg.kind = "composite"
  /\ LET r == Chain(1, Input(x), [acc |-> acc, raw |-> raw]) IN acc' = r.acc /\ out' = FlatAns(r.raw)
  /\ n' = n + 1 /\ UNCHANGED <<cfg, raw, done, mem>>
StepAttention(x) ==   \* the last input tells whether attention is used
  /\ cfg.kind = "attention"
  /\ LET e == Embed(SubSeq(x, 1, Len(x) - 1))
     IN  mem' = Remember(e) /\ out' = Attend(e, x[Len(x)]) \o Relevant(mem', cfg.top)
  /\ n' = n + 1 /\ UNCHANGED <<cfg, acc, raw, done>>
Step(x) == StepHsm(x) \/ StepComposite(x) \/ StepAttention(x)
-------------------------------------------------------------------------------
\* whatever the order the components ran in, they answer the same
Confluent(x) == (cfg.kind = "hsm" /\ done # <<>>) =>
                  \A i \in Comp : i \in Range(done) => raw[i] = IF Fails(cfg.comps[i], x) THEN Failed(cfg.comps[i]) ELSE Ans(cfg.comps[i], acc[i])
OrderOk == (done # <<>> /\ Acyclic) => \A k \in 1..Len(done) : Deps(done[k]) \subseteq {done[j] : j \in 1..(k - 1)}
OnceEach == \A j, k \in 1..Len(done) : done[j] = done[k] => j = k
NeverStuck == (cfg.kind = "hsm" /\ Len(done) < Len(cfg.comps)) => \E i \in Comp : Ready(i)
BoundedMem == Len(mem) <= (IF cfg.kind = "attention" THEN cfg.len ELSE 0)
MemExact == cfg.kind = "attention" => Len(mem) = IF n < cfg.len THEN n ELSE cfg.len
===============================================================================
