"""Adapters of the conditional computations."""
import flax.linen as nn
import haiku as hk
import jax.numpy as jnp
from modlib import adapter
from vlib import unproj
from winlib import mods


def hk_inner(kind, init):
    from wax.modules.counter import Counter
    from wax.modules.ewma import EWMA
    from wax.modules.lag import Lag
    from wax.modules.update_on_event import UpdateOnEvent

    class Sum(hk.Module):
        def __call__(self, v):
            s = hk.get_state("s", v.shape, v.dtype, jnp.zeros) + v
            hk.set_state("s", s)
            return s

    class Count(hk.Module):
        def __call__(self, v):
            return jnp.broadcast_to(Counter()().astype(v.dtype), v.shape)

    class Nest(hk.Module):
        def __call__(self, v):
            return Lag(1)(EWMA(alpha=0.5, adjust=False)(v))

    class Pair(hk.Module):
        def __call__(self, v):
            return {"n": Count()(v), "v": v}

    class Cond(hk.Module):
        def __call__(self, v, e2):
            return UpdateOnEvent(Count(), init)(e2, v)

    return dict(sum=Sum, count=Count, nest=Nest, pair=Pair, cond=Cond, lag=lambda: Lag(1), ewma=lambda: EWMA(alpha=0.5, adjust=False))[kind]()


class FSum(nn.Module):
    @nn.compact
    def __call__(self, v):
        s = self.variable("state", "s", lambda: jnp.zeros_like(v))
        s.value = s.value + v
        return s.value


class FCount(nn.Module):
    @nn.compact
    def __call__(self, v):
        s = self.variable("state", "n", lambda: jnp.zeros_like(v))
        s.value = s.value + 1
        return s.value


def fx_inner(kind, init):
    from wax.flax.core.streaming_transforms import ConditionalComputation
    from wax.flax.modules.ewma import EWMA
    from wax.flax.modules.lag import Lag

    ewma = lambda v: EWMA(alpha=0.5, adjust=False)(v)  # noqa: E731
    return dict(
        sum=lambda v, e2: FSum()(v),
        count=lambda v, e2: FCount()(v),
        nest=lambda v, e2: Lag(1)(ewma(v)),
        pair=lambda v, e2: {"n": FCount()(v), "v": v},
        lag=lambda v, e2: Lag(1)(v),
        ewma=lambda v, e2: ewma(v),
        cond=lambda v, e2: ConditionalComputation(update_fn=lambda w, f: FCount()(w), event_fn=lambda w, f: f, initial_output_value=init)(v, e2),
    )[kind]


def post(o, s):
    if isinstance(o, dict):
        return [jnp.broadcast_to(o["n"], s), o["v"]]
    return [jnp.broadcast_to(o, s)]


@adapter("cond")
def cond(cfg, lib):
    init = unproj(cfg["init"])
    kind = cfg["kind"]
    if lib == "hk":
        U = mods("hk", "update_on_event").UpdateOnEvent

        def f(e, v, e2):
            args = (v, e2) if kind == "cond" else (v,)
            return U(hk_inner(kind, init), initial_output_value=init)(e, *args)
        return f, post
    from wax.flax.core.streaming_transforms import ConditionalComputation, update_on_event
    g = fx_inner(kind, init)
    up, ev = (lambda e, v, e2: g(v, e2)), (lambda e, v, e2: e)
    if not cfg.get("deco"):
        return (lambda: ConditionalComputation(update_fn=up, event_fn=ev, initial_output_value=init)), post

    class M(nn.Module):
        @nn.compact
        def __call__(self, e, v, e2):
            return update_on_event(ev, init)(up)(e, v, e2)

    return M, post


@adapter("cond_deco")
def cond_deco(cfg, lib):
    return cond(dict(cfg, deco=True), lib)


@adapter("counter_direct")
def counter_direct(cfg, lib):
    from wax.modules.counter import Counter
    from wax.modules.update_on_event import UpdateOnEvent

    return (lambda e, v, e2: UpdateOnEvent(Counter(), initial_output_value=int(unproj(cfg["init"])))(e)), lambda o, s: [jnp.broadcast_to(o, s)]
