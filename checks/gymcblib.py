"""Drives gym_unroll and the callback contexts through the operations of a GymCallbacks behaviour."""
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

warnings.filterwarnings("ignore")
jax.config.update("jax_enable_x64", True)
NONE = -1000
INPUTS = ("enter", "leave", "register", "unregister", "areset", "outputs", "bars", "run")


class Boom(Exception):
    pass


def num(x):
    if x is None:
        return NONE
    f = float(np.asarray(x))
    assert f == int(f), f
    return int(f)


class Log:
    def __init__(self):
        self.ev = []
        self.armed = None  # phase at which to raise
        self.hook = None

    def add(self, op, s=(), v=()):
        self.ev.append(dict(op=op, s=list(s), v=[num(a) for a in v]))

    def call(self, op, who, v):
        """calls of the same hook with the same data follow each other: one event"""
        v = [num(a) for a in v]
        last = self.ev[-1] if self.ev else None
        if last and last["op"] == op and last["v"] == v and self.hook == op:
            last["s"] = sorted(last["s"] + [who])
        else:
            self.ev.append(dict(op=op, s=[who], v=v))
        self.hook = op

    def phase(self, pc):
        self.hook = None
        self.boom(pc)

    def boom(self, pc):
        """raise at the armed occurrence of the phase"""
        if self.armed and self.armed[0] == pc:
            self.armed = (pc, self.armed[1] - 1)
            if self.armed[1] < 0:
                self.armed = None
                raise Boom(pc)


def parts(style, log, data):
    from wax.gym.agent import Agent
    from wax.gym.env import Env

    if style == "py":
        class PyEnv(Env):
            name = "env"

            def __init__(self):
                self.pos, self.e = 0, 0

            def reset(self):
                log.phase("reset")
                o = data[self.pos]
                self.pos += 1
                self.e = 0
                log.add("reset", v=[o])
                return o

            def step(self, action):
                log.phase("step")
                if self.pos < len(data):
                    r = (data[self.pos] + self.e, action - self.e, False, {})
                    self.pos += 1
                    self.e += 1
                else:
                    r = (None, 0, True, {})
                log.add("step", v=[action, r[1], r[0], r[2]])
                return r

            def close(self):
                log.phase("close")
                log.add("close")

        class PyAgent(Agent):
            name = "agent"

            def __init__(self):
                self.g = 0

            def reset(self):
                self.g = 0
                log.add("areset")

            def __call__(self, obs):
                log.phase("act")
                a = 2 * obs + self.g
                self.g += 1
                log.add("act", v=[obs, a])
                return a

        return PyEnv(), PyAgent()

    from wax.gym.haiku_agent import HaikuAgent
    from wax.gym.haiku_env import HaikuEnv

    class Raw:
        pos, stepping = 0, False

        def __next__(self):
            if self.stepping:
                log.boom("step")
            if self.pos >= len(data):
                raise StopIteration
            self.pos += 1
            return jnp.asarray(float(data[self.pos - 1])), {"maxlen": len(data)}

        def __iter__(self):
            return self

    def env_fn(a, raw):
        e = hk.get_state("e", (), jnp.float64, jnp.zeros)
        hk.set_state("e", e + 1)
        return a - e, raw + e

    def agent_fn(obs):
        g = hk.get_state("g", (), jnp.float64, jnp.zeros)
        hk.set_state("g", g + 1)
        return 2 * obs + g

    def sure(f, pc):
        def apply(*a, **k):
            log.boom(pc)
            return f(*a, **k)
        return apply

    class HEnv(HaikuEnv):
        def reset(self):
            log.phase("reset")
            self.data_generator.stepping = False
            o = super().reset()
            log.add("reset", v=[o])
            return o

        def step(self, action):
            log.hook = None
            self.data_generator.stepping = True
            r = super().step(action)
            log.add("step", v=[action, r[1], r[0], r[2]])
            return r

        def close(self):
            log.phase("close")
            super().close()
            log.add("close")

    class HAgent(HaikuAgent):
        def reset(self):
            super().reset()
            log.add("areset")

        def __call__(self, obs):
            log.hook = None
            a = super().__call__(obs)
            log.add("act", v=[obs, a])
            return a

    t = hk.transform_with_state(agent_fn)
    return HEnv(Raw(), hk.transform_with_state(env_fn)), HAgent(hk.TransformedWithState(t.init, sure(t.apply, "act")))


def callbacks(log):
    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.callbacks.progressbar import ProgressBar
    from wax.gym.callbacks.record import Record
    from wax.gym.callbacks.stop import Stop
    from wax.gym.gym_unroll import gym_unroll

    def state(st):
        return [st.rw, st.obs, st.action, st.done]

    class A(Callback):
        def __init__(self):
            pass

        def _on_train_start(self, env, agent, obs):
            log.boom("start")
            log.call("start", "A", [obs])

        def _on_act(self, env, agent, obs, action):
            log.boom("onact")
            log.call("onact", "A", [obs, action])

        def _on_step(self, env, agent, st):
            log.boom("onstep")
            log.call("onstep", "A", state(st))

        def _on_train_end(self, env, agent):
            log.boom("end")
            log.call("end", "A", [])

    class S(Stop):
        def _on_step(self, env, agent, st):
            log.call("onstep", "S", state(st))
            return super()._on_step(env, agent, st)

    class R(Record):
        def _on_step(self, env, agent, st):
            log.call("onstep", "R", state(st))
            return super()._on_step(env, agent, st)

    class P(ProgressBar):
        bars: list = []

        def _on_train_start(self, env, agent, obs):
            log.call("start", "P", [obs])
            return super()._on_train_start(env, agent, obs)

        def _on_step(self, env, agent, st):
            log.call("onstep", "P", state(st))
            return super()._on_step(env, agent, st)

        def _on_train_end(self, env, agent):
            log.call("end", "P", [])
            return super()._on_train_end(env, agent)

    class N(Callback):
        def __init__(self):
            pass

        def _on_train_start(self, env, agent, obs):
            log.call("start", "N", [obs])
            sub = Log()
            hook = log.hook
            e, a = parts("py", sub, [5, 6, 7])
            gym_unroll(a, e)
            if [x["op"] for x in sub.ev] != ["reset"] + ["act", "step"] * 3 + ["close"]:
                log.add("nested")
            log.hook = hook

    return dict(A=A(), B=Callback(on_step=lambda e, a, st: log.call("onstep", "B", state(st)),
                                  on_train_end=lambda e, a: log.call("end", "B", [])),
                S=S(2), R=R(return_obs=True, return_action=True), N=N(), P=P())


def drive(job):
    """job: style, data, ops = input events and the phases to fail at -> events"""
    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.gym_unroll import gym_unroll

    from wax.gym.callbacks import progressbar

    Callback.active = set()
    log = Log()
    bars = []

    class Bar:
        """a progress bar that only counts; nothing shows once it is closed"""

        def __init__(self, *a, total=None, **k):
            self.n, self.closed, self.total = 0, 0, total
            if total not in (None, len(job["data"])):
                log.add("total")
            bars.append(self)

        def update(self, n=1):
            if not self.closed:
                self.n += n

        def close(self):
            self.closed = 1

    progressbar.tqdm = Bar
    env, agent = parts(job["style"], log, job["data"])
    cb = callbacks(log)
    stack = []
    for op in job["ops"]:
        k, s, v = op["op"], op["s"], op["v"]
        if k == "areset":
            agent.reset()
            continue
        if k == "outputs":
            o = cb["R"].get_outputs()
            n = len(o.reward)
            log.ev.append(dict(op=k, s=[], v=[[num(o.reward[i]), num(o.obs[i]), num(o.action[i])] for i in range(n)]))
            if o._fields != ("reward", "obs", "action") or len(o.obs) != n or len(o.action) != n:
                log.ev[-1]["op"] = "fields"
            continue
        if k == "bars":
            log.ev.append(dict(op=k, s=[], v=[[b.n, b.closed] for b in bars]))
            continue
        log.ev.append(dict(op=k, s=list(s), v=list(v)))
        if k == "enter":
            if cb[s[0]].__enter__() is not cb[s[0]]:
                log.add("not_itself")
            stack.append(cb[s[0]])
        elif k == "leave":
            c = stack.pop()
            r = c.__exit__(*((Boom, Boom("x"), None) if v[0] else (None, None, None)))
            if r:
                log.add("swallowed")
        elif k == "register":
            cb[s[0]].register()
        elif k == "unregister":
            cb[s[0]].unregister()
        else:
            log.hook = None
            log.armed = op.get("fail")
            kw = {}
            if v[0]:
                kw["callbacks"] = [cb[c] if job.get("objects", True) else cb[c]._callback for c in s]
            if v[1]:
                kw["obs"] = 0 if job["style"] == "py" else jnp.asarray(0.0)
            try:
                st = agent.unroll(env, **kw) if job.get("method") else gym_unroll(agent, env, **kw)
                log.add("return", v=[st.rw, st.obs, st.action, st.done])
            except Boom as ex:
                log.ev.append(dict(op="raise", s=[], v=[str(ex)]))
            log.armed = None
    Callback.active = set()
    return log.ev


def jobs(items):
    from vlib import _call

    return [_call(("gymcblib:drive", it)) for it in items]


def ops_of(h):
    """the operations of a behaviour, each run with the phase at which it fails"""
    out, start = [], 0
    for t, e in enumerate(h):
        if e["op"] in INPUTS:
            out.append(dict(e))
            start = t
        elif e["op"] == "raise":
            pc = e["v"][0]
            out[-1]["fail"] = [pc, sum(a["op"] == pc for a in h[start:t])]
    return out
