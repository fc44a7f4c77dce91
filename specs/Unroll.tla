-------------------------------- MODULE Unroll --------------------------------
(* Unrolling of a stateful transformation over sequences (wax.unroll,           *)
(* wax.flax.core.unroll, wax.stateful).                                         *)
(*                                                                              *)
(* A scenario is a list of calls; each call unrolls one sequence and starts from *)
(* the parameters and the state left by the previous call (the first one from   *)
(* `init` on its first item, or from given values).  The transformations are a  *)
(* family of small stateful modules that tell apart every way of threading the  *)
(* state, the parameters and the random key:                                    *)
(*   acc  y = s + x, s' = 2s + x, s0 = 1          order and multiplicity         *)
(*   par  y = p*x + s, s' = s + 1, p = x0 + 2     parameters made from x0        *)
(*   sx0  y = s - x, s' = x, s0 = 3*x0            state made from x0             *)
(*   rnd  y = n + x and the key used, n' = n + 1  key threading                  *)
(*   nst  y = 2x and the key used, no state       key threading, no state        *)
(* Random keys are terms: the root key is <<>>, split(k) = (k.0, k.1).  Entry    *)
(* points split the key at each step, pass it as is (keys = "const") or draw it  *)
(* from a sequence (keys = "seq").  The caller may give parameters and/or state. *)
(* `consumes` is TRUE for Flax, whose `init` runs the module once on the first   *)
(* item and keeps the resulting state (pinned by its tests); FALSE for Haiku.   *)
EXTENDS Integers, Sequences

VARIABLES cfg, call, pos, par, st, key, out
vars == <<cfg, call, pos, par, st, key, out>>

Kinds == {"acc", "par", "sx0", "rnd", "nst"}
Keyed == {"rnd", "nst"}
ParInit(kind, x) == IF kind = "par" THEN x + 2 ELSE 0
StInit(kind, x)  == CASE kind = "acc" -> 1 [] kind = "sx0" -> 3 * x [] OTHER -> 0
Y(kind, p, s, x) == CASE kind = "acc" -> s + x [] kind = "par" -> p * x + s
                      [] kind = "sx0" -> s - x [] kind = "nst" -> 2 * x [] OTHER -> s + x
S(kind, p, s, x) == CASE kind = "acc" -> 2 * s + x [] kind = "par" -> s + 1
                      [] kind = "sx0" -> x [] kind = "nst" -> s [] OTHER -> s + 1

\* the items that a call applies: skip_first drops the first item of the first call
Items(c, n) == IF c.skip /\ n = 1 THEN Tail(c.parts[n]) ELSE c.parts[n]

\* the state `init` returns
InitState(c, x) == LET p == ParInit(c.kind, x) s == StInit(c.kind, x)
                   IN  IF c.consumes THEN S(c.kind, p, s, x) ELSE s

\* the first call starts from what the caller gives, else from what init makes of the first item
P0 == IF cfg.gp THEN cfg.gpar ELSE ParInit(cfg.kind, cfg.parts[1][1])
S0 == IF cfg.gs THEN cfg.gst ELSE InitState(cfg, cfg.parts[1][1])

\* "split": the key is split at each step; "const": it is passed as is; "seq": init draws the
\* first key of a sequence and each step the next one
RootKey(c) == IF c.keys = "seq" THEN <<1>> ELSE <<>>
UsedKey == CASE cfg.keys = "split" -> Append(key, 1) [] cfg.keys = "const" -> key [] OTHER -> <<key[1] + 1>>
NextKey == CASE cfg.keys = "split" -> Append(key, 0) [] cfg.keys = "const" -> key [] OTHER -> <<key[1] + 1>>

StartCall ==
  /\ pos = -1 /\ call < Len(cfg.parts)
  /\ call' = call + 1 /\ pos' = 0
  /\ key' = RootKey(cfg)                    \* each call gets a root key (or none)
  /\ IF call = 0 THEN par' = P0 /\ st' = S0
     ELSE UNCHANGED <<par, st>>             \* resume
  /\ out' = [y |-> 0, key |-> <<>>]
  /\ UNCHANGED cfg

Step ==
  /\ pos >= 0 /\ pos < Len(Items(cfg, call))
  /\ LET x == Items(cfg, call)[pos + 1]
     IN  /\ out' = [y |-> Y(cfg.kind, par, st, x),
                    key |-> UsedKey]
         /\ st' = S(cfg.kind, par, st, x)
  /\ key' = NextKey
  /\ pos' = pos + 1
  /\ UNCHANGED <<cfg, call, par>>

EndCall ==
  /\ pos >= 0 /\ pos = Len(Items(cfg, call))
  /\ pos' = -1
  /\ UNCHANGED <<cfg, call, par, st, key, out>>

Next == StartCall \/ Step \/ EndCall
-------------------------------------------------------------------------------
(* Properties, without the step by step threading                               *)
RECURSIVE Cat(_, _)
Cat(c, n) == IF n = 0 THEN <<>> ELSE Cat(c, n - 1) \o Items(c, n)
\* everything applied so far
Seen == LET all == IF call = 0 THEN <<>> ELSE Cat(cfg, call - 1)
        IN  IF call = 0 THEN <<>>
            ELSE IF pos = -1 THEN Cat(cfg, call) ELSE all \o SubSeq(Items(cfg, call), 1, pos)

RECURSIVE Fold(_, _, _, _)
Fold(kind, p, s, xs) == IF xs = <<>> THEN s ELSE Fold(kind, p, S(kind, p, s, Head(xs)), Tail(xs))
\* the state is the fold of everything applied: splitting the sequence is invisible
SplitInvisible == call > 0 => st = Fold(cfg.kind, P0, S0, Seen)
\* the parameters never change
ParamsConstant == call > 0 => par = P0
\* keys are never reused inside a call
FreshKeys == /\ (pos > 0 /\ cfg.keys = "split") => out.key = [k \in 1..pos |-> IF k = pos THEN 1 ELSE 0]
             /\ (pos > 0 /\ cfg.keys = "seq") => out.key = <<pos + 1>>
\* exactly one output per applied item
OnePerItem == call > 0 => pos <= Len(Items(cfg, call))
===============================================================================
