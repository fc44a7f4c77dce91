"""Adapters of the masked statistics."""
import jax.numpy as jnp
from modlib import Mismatch, adapter
from vlib import unproj
from winlib import mods

CLS = dict(apply=("apply_mask", "ApplyMask"), mean=("mask_mean", "MaskMean"), std=("mask_std", "MaskStd"), norm=("mask_normalize", "MaskNormalize"))


def parts(cfg, chans):
    c = jnp.stack([jnp.asarray(a, dtype=jnp.float64) if a.dtype == bool else a for a in chans])
    ml, nm = cfg["mlen"], cfg["n"] * cfg["m"]
    shape = (cfg["n"],) if cfg["vector"] else (cfg["n"], cfg["m"])
    mask = c[:ml] != 0
    if ml == nm:
        mask = mask.reshape(shape)
    return mask, c[ml:].reshape(shape)


def make(cfg, lib, tree):
    name, cls = CLS[cfg["kind"]]
    m = mods(lib, name)
    kw = dict(axis=None if cfg["axis"] == -1 else cfg["axis"])
    if cfg["kind"] in ("std", "norm"):
        kw["assume_centered"] = cfg["centered"]
    if cfg["kind"] == "apply":
        kw["mask_value"] = unproj(cfg["fill"])

    def inp(v):
        return {"a": v, "b": [2 * v]} if tree else v

    def post(o, s):
        if tree:
            a, b = o["a"], o["b"][0]
            if cfg["kind"] == "std" or cfg["kind"] == "mean":
                b = b / 2
            elif cfg["kind"] == "apply":
                b = jnp.where(a == unproj(cfg["fill"]), a, b / 2)
            o = jnp.where(jnp.isclose(a, b, equal_nan=True), a, -777.0)
        else:
            o = jnp.asarray(o)
        if cfg["kind"] == "std":
            o = jnp.where(o < 0, -777.0, o**2)
        if cfg["kind"] == "norm":
            o = o * jnp.abs(o)
        if cfg["kind"] in ("mean", "std"):
            want = () if cfg["axis"] == -1 else ((cfg["m"],) if cfg["axis"] == 0 else (cfg["n"],))
            if cfg["vector"]:
                want = ()
            if o.shape != want:
                raise Mismatch(f"shape {o.shape} instead of {want}")
        return list(o.reshape(-1))

    if lib == "hk":
        def f(*c):
            mask, v = parts(cfg, c)
            return getattr(m, cls)(**kw)(mask, inp(v))
        return f, post

    K = getattr(m, cls)

    class M(K):
        def __call__(self, *c):
            mask, v = parts(cfg, c)
            return super().__call__(mask, inp(v))

    return (lambda: M(**kw)), post


@adapter("mask")
def mask(cfg, lib):
    return make(cfg, lib, False)


@adapter("mask_tree")
def mask_tree(cfg, lib):
    return make(cfg, lib, True)
