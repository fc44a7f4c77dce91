"""Adapters of the exponentially weighted modules (Haiku, Flax)."""
import jax.numpy as jnp
from modlib import Mismatch, adapter
from vlib import unproj
from winlib import mods

ADJ = {"true": True, "false": False, "linear": "linear"}


def rate(cfg, i=0):
    """the same rate given as com or as alpha"""
    n, d = cfg["alpha"]
    return dict(com=(d - n) / n) if (n + d + cfg["minp"] + i) % 2 else dict(alpha=n / d)


def kwargs(cfg):
    return dict(rate(cfg), adjust=ADJ[cfg["adjust"]], ignore_na=cfg["ignore"], initial_value=unproj(cfg["init"]), min_periods=cfg["minp"])


@adapter("ewma")
def ewma(cfg, lib):
    m = mods(lib, "ewma")
    kw = dict(kwargs(cfg), return_info=cfg["info"])

    def post(o, s):
        if not cfg["info"]:
            return [o]
        y, info = o
        if set(info) != {"com_eff", "nobs"}:
            raise Mismatch("info")
        return [y, info["com_eff"], info["nobs"]]

    if lib == "hk":
        return (lambda x: m.EWMA(**kw)(x)), post
    return (lambda: m.create_ewma(**kw)), post


@adapter("ewmvar")
def ewmvar(cfg, lib):
    m = mods(lib, "ewmvar")
    kw = dict(rate(cfg), adjust=ADJ[cfg["adjust"]])
    if lib == "hk":
        return (lambda x: m.EWMVar(**kw)(x)), lambda o, s: [o]
    return (lambda: m.create_ewmvar(**kw)), lambda o, s: [o]


@adapter("ewmcov")
def ewmcov(cfg, lib):
    """x = (u, v), y = (p,): the matrix has cells (u,p) and (v,p)"""
    m = mods(lib, "ewmcov")
    kw = dict(kwargs(cfg), assume_centered=cfg["centered"])
    how = cfg.get("call", "args")

    def call(f, u, v, p):
        x, y = jnp.stack([u, v]), jnp.stack([p])
        if cfg["swap"]:
            x, y = y, x
        return f(x, y) if how == "args" else f((x, y))

    def post(o, s):
        if o.shape != ((1, 2) if cfg["swap"] else (2, 1)):
            raise Mismatch("shape")
        return [o.reshape(-1)[0], o.reshape(-1)[1]]

    if lib == "hk":
        return (lambda u, v, p: call(m.EWMCov(**kw), u, v, p)), post
    mod = m.create_ewmcov(**kw)

    class M(type(mod)):
        def __call__(self, u, v, p):
            return call(super().__call__, u, v, p)

    return (lambda: M(**kw)), post
