"""Adapters of the gym feedback loop."""
import flax.linen as nn
import haiku as hk
import jax.numpy as jnp
from modlib import Mismatch, adapter
from vlib import unproj
from winlib import mods


def hk_parts(style):
    from wax.modules.lag import Lag

    class State(hk.Module):
        def __call__(self, f):
            s = hk.get_state("s", (), jnp.float64, jnp.zeros)
            y, s2 = f(s)
            hk.set_state("s", s2)
            return y, s

    class Env(hk.Module):
        def __call__(self, a, x):
            s = hk.get_state("s", x.shape, x.dtype, jnp.zeros)
            hk.set_state("s", s + a)
            return a - 2 * x + s, x + s, {"e": s}

    class Agent(hk.Module):
        def __call__(self, o):
            s = hk.get_state("s", o.shape, o.dtype, jnp.zeros)
            hk.set_state("s", s - o)
            p = hk.get_parameter("p", (), o.dtype, jnp.ones)
            return 2 * o * p + s, {"g": s}

    if style == "fn":
        return (lambda o: Agent()(o)), (lambda a, x: Env()(a, x))
    return Agent(), Env()


@adapter("gym")
def gym(cfg, lib):
    G = mods("hk", "gym_feedback").GymFeedback
    init = unproj(cfg["init"]) if cfg["init"] != [0, 0] else None

    def f(x, r):
        agent, env = hk_parts(cfg.get("style"))
        kw = {} if init is None else dict(init_action=jnp.full(x.shape, init, x.dtype))
        return G(agent, env, return_obs=cfg["obs"], return_action=cfg["act"], **kw)(x)

    def post(o, s):
        out, info = o
        names = ("reward",) + (("obs",) if cfg["obs"] else ()) + (("action",) if cfg["act"] else ())
        if out._fields != names:
            raise Mismatch(f"fields {out._fields}")
        return [getattr(out, n) for n in names] + [info.env["e"], info.agent["g"]]

    return f, post


@adapter("gym_fn")
def gym_fn(cfg, lib):
    return gym(dict(cfg, style="fn"), lib)


class FAgent(nn.Module):
    rewarded: bool

    @nn.compact
    def __call__(self, o, *r):
        s = self.variable("state", "s", lambda: jnp.zeros_like(o))
        g = s.value
        s.value = g - o
        return 2 * o + g + (r[0] if r else 0.0)


class FAgent1(nn.Module):
    """does not take the reward"""
    @nn.compact
    def __call__(self, o):
        s = self.variable("state", "s", lambda: jnp.zeros_like(o))
        g = s.value
        s.value = g - o
        return 2 * o + g


@adapter("gymfx")
def gymfx(cfg, lib):
    m = mods("fx", "gym_feedback")
    loop = cfg["kind"] == "fxloop"
    K = m.GymFeedbackLoop if loop else m.GymFeedback
    class M(K):
        def __call__(self, x, r):
            if cfg["reward"] or cfg.get("plain"):
                return super().__call__(x, r)
            return super().__call__(x)

    def post(o, s):
        return [jnp.broadcast_to(a, s) for a in o] if loop else [o]

    return (lambda: M(FAgent1() if cfg.get("plain") else FAgent(True))), post
