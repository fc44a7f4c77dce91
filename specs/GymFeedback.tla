------------------------------ MODULE GymFeedback ------------------------------
(* Feedback loop between an agent and an environment, both with a state:           *)
(*   environment  reward = a - 2x + e, observation = x + e, e' = e + a (a: action) *)
(*   agent        action = 2 obs + g, g' = g - obs                                  *)
(* "hk": the environment receives the action of the previous step; the first one   *)
(* is cfg.init, or (cfg.init = NaN) what a fresh agent answers to the first raw    *)
(* observation.  "fx" / "fxloop": the agent alone, with the reward given or not;   *)
(* then action = 2 obs + g + reward.  Flax runs once on cfg.x0 first (modlib: the  *)
(* first item itself is that run, so it needs no special treatment here).          *)
EXTENDS Integers, Sequences, Num
VARIABLES cfg, act, env, agent, out, seen
vars == <<cfg, act, env, agent, out, seen>>
Start == act = NaN /\ env = Zero /\ agent = Zero /\ out = <<>> /\ seen = <<>>
Two == I(2)
Action(o, g) == Add(Mul(Two, o), g)
Step(x) ==
  /\ seen' = Append(seen, x) /\ UNCHANGED cfg
  /\ IF cfg.kind = "hk"
     THEN LET a0 == IF seen # <<>> THEN act ELSE IF cfg.init = NaN THEN Action(x[1], Zero) ELSE cfg.init
              r == Add(Sub(a0, Mul(Two, x[1])), env)
              o == Add(x[1], env)
              a == Action(o, agent)
          IN  /\ act' = a /\ env' = Add(env, a0) /\ agent' = Sub(agent, o)
              /\ out' = <<r>> \o (IF cfg.obs THEN <<o>> ELSE <<>>) \o (IF cfg.act THEN <<a>> ELSE <<>>) \o <<env, agent>>
     ELSE LET a == Add(Action(x[1], agent), IF cfg.reward THEN x[2] ELSE Zero)
          IN  /\ act' = a /\ agent' = Sub(agent, x[1]) /\ UNCHANGED env
              /\ out' = IF cfg.kind = "fx" THEN <<a>> ELSE <<x[1], a, IF cfg.reward THEN x[2] ELSE Zero>>
-------------------------------------------------------------------------------
N == Len(seen)
X(k) == seen[k][1]
\* the action the environment receives at step k, and the states, from the history
RECURSIVE A(_), EnvAt(_), AgAt(_)
EnvAt(k) == IF k = 1 THEN Zero ELSE Add(EnvAt(k - 1), A(k - 1))
Obs(k) == IF cfg.kind = "hk" THEN Add(X(k), EnvAt(k)) ELSE X(k)
AgAt(k) == IF k = 1 THEN Zero ELSE Sub(AgAt(k - 1), Obs(k - 1))
A(k) == IF k = 1 THEN (IF cfg.init = NaN THEN Mul(Two, X(1)) ELSE cfg.init) ELSE Action(Obs(k - 1), AgAt(k - 1))
FromHistory ==
  N > 0 /\ cfg.kind = "hk" =>
    /\ out[1] = Add(Sub(A(N), Mul(Two, X(N))), EnvAt(N))
    /\ cfg.obs => out[2] = Obs(N)
    /\ cfg.act => out[IF cfg.obs THEN 3 ELSE 2] = Action(Obs(N), AgAt(N))
\* the action of a step reaches the environment at the next step only
Delay == [][cfg.kind = "hk" /\ Len(seen) > 0 /\ Len(seen') > Len(seen) => env' = Add(env, act)]_vars
===============================================================================
