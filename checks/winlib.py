"""Adapters of the window modules."""
import importlib

import flax.linen as nn
import jax.numpy as jnp
from modlib import Mismatch, adapter, cat  # noqa: F401
from vlib import unproj


def fill_of(cfg):
    return unproj(cfg["fill"])


def mods(lib, name):
    return importlib.import_module(f"wax.{'flax.' if lib == 'fx' else ''}modules.{name}")


@adapter("buffer")
def buffer(cfg, lib):
    m = mods(lib, "buffer")
    st = cfg["kind"] == "state"

    def post(out, shape):
        if st:
            b, s = out
            if b.shape != s.buffer.shape:
                raise Mismatch("state.buffer")
            n = jnp.asarray(s.len_buffer)
            i0 = s.i_start if lib == "hk" else cfg["maxlen"] - n
            # the announced position must be where the window starts
            n = jnp.where(cfg["maxlen"] - i0 == n, n, -1)
            n = jnp.where(jnp.array_equal(b, s.buffer, equal_nan=True), n, -2)
            return [b[i] for i in range(b.shape[0])] + [jnp.broadcast_to(n, shape)]
        return [out[i] for i in range(out.shape[0])]

    kw = dict(fill_value=fill_of(cfg), return_state=st)
    if lib == "hk":
        return (lambda x: m.Buffer(cfg["maxlen"], **kw)(x)), post
    return (lambda: m.create_buffer(cfg["maxlen"], **kw)), post


@adapter("lag")
def lag(cfg, lib):
    m = mods(lib, "lag")
    n, f = cfg["maxlen"] - 1, fill_of(cfg)
    if lib == "hk":
        return (lambda x: m.Lag(n, fill_value=f)(x)), lambda o, s: [o]
    return (lambda: m.create_lag(n, fill_value=f)), lambda o, s: [o]


@adapter("lag_state")
def lag_state(cfg, lib):
    m = mods(lib, "lag")
    n, f = cfg["maxlen"] - 1, fill_of(cfg)

    def post(o, s):
        y, st = o
        return [jnp.where(jnp.array_equal(y, st.buffer[0], equal_nan=True), y, -99)]

    if lib == "hk":
        return (lambda x: m.Lag(n, fill_value=f, return_state=True)(x)), post
    return (lambda: m.create_lag(n, fill_value=f, return_state=True)), post


@adapter("tree_lag")
def tree_lag(cfg, lib):
    m = mods(lib, "lag")
    n = cfg["maxlen"] - 1

    def f(x):
        a, b = m.tree_lag(n)({"u": x, "none": None}, (x + 1,))
        if a["none"] is not None:
            raise Mismatch("None leaf")
        return jnp.where(jnp.array_equal(b[0], a["u"] + 1, equal_nan=True), a["u"], -99)

    if lib == "hk":
        return f, lambda o, s: [o]

    class M(nn.Module):
        @nn.compact
        def __call__(self, x):
            return f(x)

    return M, lambda o, s: [o]


@adapter("diff")
def diff(cfg, lib):
    m = mods(lib, "diff")
    if lib == "hk":
        return (lambda x: m.Diff(1)(x)), lambda o, s: [o]
    return (lambda: m.create_diff(1)), lambda o, s: [o]
