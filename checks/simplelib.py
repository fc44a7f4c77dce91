"""Adapters of the simple streaming modules."""
import jax.numpy as jnp
from modlib import Mismatch, adapter
from vlib import unproj
from winlib import mods


def plain(o, s):
    return [o]


def make(lib, name, cls, factory, **kw):
    m = mods(lib, name)
    if lib == "hk":
        return (lambda *x: getattr(m, cls)(**kw)(*x)), plain
    return (lambda: getattr(m, factory)(**kw)), plain


@adapter("roll")
def roll(cfg, lib):
    return make(lib, "rolling_mean", "RollingMean", "create_rolling_mean", horizon=cfg["horizon"], min_periods=cfg["minp"])


@adapter("ffill")
def ffill(cfg, lib):
    return make(lib, "ffill", "Ffill", "create_ffill")


@adapter("pct")
def pct(cfg, lib):
    return make(lib, "pct_change", "PctChange", "create_pct_change", fill_method="pad" if cfg["pad"] else "none", fillna_zero=cfg["zero"])


@adapter("clean")
def clean(cfg, lib):
    return make(lib, "fill_nan_inf", "FillNanInf", "create_fill_nan_inf", fill_value=unproj(cfg["fill"]))


@adapter("clean_tree")
def clean_tree(cfg, lib):
    b, _ = make(lib, "fill_nan_inf", "FillNanInf", "create_fill_nan_inf", fill_value=unproj(cfg["fill"]))
    if lib == "hk":
        return (lambda x: b({"u": x, "v": (x, x[None] if x.ndim else x)})), lambda o, s: tree_post(o)
    m = b()

    class M(type(m)):
        def __call__(self, x):
            return super().__call__({"u": x, "v": (x, x[None] if x.ndim else x)})

    return (lambda: M(fill_value=unproj(cfg["fill"]))), lambda o, s: tree_post(o)


def tree_post(o):
    same = jnp.array_equal(o["v"][0], o["u"], equal_nan=True) & jnp.array_equal(o["v"][1].reshape(o["u"].shape), o["u"], equal_nan=True)
    return [jnp.where(same, o["u"], -12345.0)]


@adapter("changed_far")
def changed_far(cfg, lib):
    """the same changes, far from zero"""
    return changed(cfg, lib, 2.0**20)


@adapter("changed")
def changed(cfg, lib, far=0):
    b, _ = make(lib, "has_changed", "HasChanged", "create_has_changed")
    def post(o, s):
        if o.dtype != bool:
            raise Mismatch("HasChanged is not boolean")
        return [o]
    dt = {0: jnp.float64, -99999: jnp.int32}.get(cfg["missing"][0] if cfg["missing"][1] == 0 or cfg["missing"][0] else 1, bool)
    conv = lambda a, c: (jnp.stack([a, c]) + far).astype(dt)  # noqa: E731
    if lib == "hk":
        return (lambda a, c: b(conv(a, c))), post
    m = b()

    class M(type(m)):
        def __call__(self, a, c):
            return super().__call__(conv(a, c))

    return M, post


@adapter("changed1")
def changed1(cfg, lib):
    """scalar input: the second channel is ignored (used with equal channels)"""
    b, _ = make(lib, "has_changed", "HasChanged", "create_has_changed")
    if lib == "hk":
        return (lambda a, c: b(a)), plain
    m = b()

    class M(type(m)):
        def __call__(self, a, c):
            return super().__call__(a)

    return M, plain


@adapter("counter")
def counter(cfg, lib):
    m = mods(lib, "counter")
    if lib == "hk":
        return (lambda x: m.Counter()()), lambda o, s: [jnp.broadcast_to(o, s)]
    mod = m.create_counter()

    class M(type(mod)):
        def __call__(self, x):
            return super().__call__()

    return M, lambda o, s: [jnp.broadcast_to(o, s)]
