"""Adapters of ARMA and SNARIMAX."""
import flax.linen as nn
import jax.numpy as jnp
from modlib import Mismatch, adapter
from vlib import unproj
from winlib import mods


def vec(s):
    return jnp.array([unproj(v) for v in s], dtype=jnp.float64)


@adapter("arma")
def arma(cfg, lib):
    m = mods(lib, "arma")
    al, be = vec(cfg["alpha"]), vec(cfg["beta"])
    if lib == "hk":
        # Haiku lists the coefficients from the oldest lag to the most recent one
        return (lambda x: m.ARMA(al[::-1], be[::-1])(x)), lambda o, s: [o]
    return (lambda: m.create_arma(al, be)), lambda o, s: [o]


@adapter("snar")
def snar(cfg, lib):
    from wax.modules.snarimax import SNARIMAX

    w = vec(cfg["w"])

    def reg(X):
        if X.shape != w.shape:
            raise Mismatch(f"{X.shape} features instead of {w.shape}")
        return (w @ X)[None]

    def f(y, *x):
        o, info = SNARIMAX(cfg["p"], 0, cfg["q"], regressor=reg)(y, jnp.stack(x) if x else None)
        return o

    return f, lambda o, s: [o]


@adapter("snarfx")
def snarfx(cfg, lib):
    m = mods("fx", "snarimax")
    w = vec(cfg["w"])

    def reg(X):
        if X.shape != (1,) + w.shape:
            raise Mismatch(f"{X.shape} features instead of {w.shape}")
        return X @ w[:, None]

    class M(m.SNARIMAX):
        def __call__(self, x, y):
            return super().__call__(x, y) if cfg["q"] > 0 else super().__call__(x)

    return (lambda: M(lags_x=cfg["p"], lags_y=cfg["q"], regressor=reg)), lambda o, s: [o]
