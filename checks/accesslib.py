"""Drives the accessors of a container through the calls of an Accessor behaviour and projects
the labelled outputs: per leaf its type, dims and label ordinals, per step its values."""
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd
import xarray as xr

warnings.filterwarnings("ignore")
jax.config.update("jax_enable_x64", True)
MISSING = -1000
NAMES = ["a", "b", "c"]
LABELS = [["q", "b", "z", "a", "m"], [30, 10, 20, 50, 40], ["k2", "k1", "k3"]]


class Mismatch(Exception):
    pass


class Acc(hk.Module):
    def __call__(self, x):
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.ones)
        z = jnp.where(jnp.isnan(x), jnp.zeros_like(x), x)
        hk.set_state("s", 2 * s + z)
        return s + z


def leaf(kind, y):
    if kind == "same":
        return y
    if kind == "pos":
        return y > 3
    if kind == "sum":
        return y.sum()
    if kind == "last":
        return y.sum(axis=-1)
    return y.T


DIMS = dict(same=lambda n: list(range(n)), pos=lambda n: list(range(n)), sum=lambda n: [],
            last=lambda n: list(range(n - 1)), tr=lambda n: [1, 0])


def nest(style, vals):
    if style == "one":
        return vals[0]
    if style == "tuple":
        return tuple(vals)
    if style == "list":
        return list(vals)
    if style == "map":
        return {f"o{k}": v for k, v in enumerate(vals)}
    return {"u": vals[0], "w": (list(vals[1:]), {})} if len(vals) > 1 else ({"u": vals[0]},)


def unnest(style, out, n):
    if style == "one":
        return [out]
    if style in ("tuple", "list"):
        if type(out) is not dict(tuple=tuple, list=list)[style] or len(out) != n:
            raise Mismatch(f"structure {type(out)}")
        return list(out)
    if style == "map":
        keys = list(out.data_vars) if isinstance(out, xr.Dataset) else list(out)
        if sorted(keys) != sorted(f"o{k}" for k in range(n)):
            raise Mismatch(f"keys {keys}")
        return [out[f"o{k}"] for k in range(n)]
    if n > 1:
        return [out["u"], *out["w"][0]]
    return [out[0]["u"]]


def dates(item, T):
    gaps = np.cumsum([0] + [1 + (i * i + item["salt"]) % 3 for i in range(T - 1)])
    return pd.DatetimeIndex([pd.Timestamp(item["origin"]) + pd.Timedelta(hours=int(7 * g)) for g in gaps])


def container(item, x, idx):
    """the container of the observations x [T, *shape]"""
    kind, shape, tn = item["cfg"]["kind"], item["cfg"]["shape"], item["time"]
    lab = [LABELS[d][:n] for d, n in enumerate(shape)]
    named = item["named"]
    idx = idx.rename(tn if named else None)
    if kind in ("da", "ds"):
        dims = [tn] + NAMES[: len(shape)]
        coords = {tn: idx} | {NAMES[d]: lab[d] for d in range(len(shape))}
        da = xr.DataArray(x, dims=dims, coords=coords)
        if kind == "da":
            return da
        return xr.Dataset({"v": da, "other": ((tn,), np.arange(len(x)) * 1.0), "fix": ((), 3.0)})
    if kind == "series":
        if not shape:
            return pd.Series(x, idx)
        mi = pd.MultiIndex.from_product([idx, *lab], names=[tn, *NAMES[: len(shape)]])
        return pd.Series(x.ravel(), mi)
    if len(shape) == 1:
        return pd.DataFrame(x, idx, pd.Index(lab[0], name=NAMES[0] if named else None))
    if item["multi"] == "columns":
        return pd.DataFrame(x.reshape(len(x), -1), idx.rename(tn), pd.MultiIndex.from_product(lab, names=NAMES[: len(shape)]))
    mi = pd.MultiIndex.from_product([idx, *lab[:-1]], names=[tn, *NAMES[: len(shape) - 1]])
    return pd.DataFrame(x.reshape(-1, shape[-1]), mi, pd.Index(lab[-1], name=NAMES[len(shape) - 1]))


def describe(item, r, idx):
    """one labelled leaf -> (type, dims, shape, {time ordinal: values})"""
    shape, tn = item["cfg"]["shape"], item["time"]
    num = {n: d for d, n in enumerate(NAMES)} | {tn: -1}
    if not item["named"]:
        num |= {"dim_0": -1, "index": -1, "dim_1": 0, None: -1 if isinstance(r, pd.Series) else None}
    ordered = True
    if isinstance(r, xr.DataArray):
        typ, names, labels, values = "DataArray", list(r.dims), [list(r[d].values) for d in r.dims], r.values
    elif isinstance(r, (pd.Series, pd.DataFrame)):
        typ = type(r).__name__
        axes = [r.index] + ([r.columns] if isinstance(r, pd.DataFrame) else [])
        names = [n for a in axes for n in a.names]
        multi = dict(da=False, ds=False, df=len(shape) > 1, series=len(shape) > 0)[item["cfg"]["kind"]]
        if not multi and all(a.nlevels == 1 for a in axes):
            labels, values = [list(a) for a in axes], r.values
        else:
            # multi index: by label
            ordered = False
            s = r
            if isinstance(r, pd.DataFrame):
                s = r.stack(list(range(r.columns.nlevels)), future_stack=True)
            keys = [k if isinstance(k, tuple) else (k,) for k in s.index]
            labels = [sorted({k[i] for k in keys}, key=lambda z, i=i: (list(idx) if names[i] == tn else LABELS[num[names[i]]]).index(z)) for i in range(len(names))]
            tab = dict(zip(keys, s.values))
            if len(tab) != len(keys) or len(keys) != int(np.prod([len(v) for v in labels])):
                raise Mismatch("labels are duplicated or incomplete")
            import itertools

            values = np.array([tab[k] for k in itertools.product(*labels)]).reshape([len(v) for v in labels])
    else:
        raise Mismatch(f"unexpected container {type(r)}")
    dims = [num[n] for n in names]
    if not dims or dims[0] != -1:
        raise Mismatch(f"dims {names}")
    for d, v in zip(dims[1:], labels[1:]):
        if v != LABELS[d][: len(v)]:
            raise Mismatch(f"labels of {d}: {v}" if ordered else f"labels of {d}")
    times = [list(idx).index(pd.Timestamp(v)) for v in labels[0]]
    if times != sorted(times):
        raise Mismatch("time labels are not in order")
    return typ, [d + 1 for d in dims[1:]], [len(v) for v in labels[1:]], dict(zip(times, values.reshape(len(times), -1))), values.dtype


def ints(v):
    f = np.asarray(v, float)
    if not np.isfinite(f).all() or (f != np.round(f)).any():
        raise Mismatch(f"value {v}")
    return [int(z) for z in f.ravel()]


def drive(item):
    with jax.enable_x64(item.get("x64", True)):
        return drive_(item)


def drive_(item):
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    cfg = item["cfg"]
    shape, leaves, T = cfg["shape"], cfg["leaves"], len(item["xs"])
    x = np.array([[np.nan if v == MISSING else v for v in row] for row in item["xs"]], dtype=item["dtype"]).reshape(T, *shape)
    idx = dates(item, T)
    pick = (lambda d: d["v"]) if cfg["kind"] == "ds" else (lambda v: v)
    module = lambda v: nest(item["nest"], [leaf(k, y) for y in [Acc()(pick(v))] for k in leaves])  # noqa: E731
    names = [[item["time"], *[NAMES[d] for d in DIMS[k](len(shape))]] for k in leaves]
    conv = dict(array=np.array, tuple=tuple, list=list)[item["fdtype"]]
    fd = {}
    if item["fd"] == "whole":
        fd = dict(format_dims=conv(names[0]))
    elif item["fd"] == "each":
        fd = dict(format_dims=nest(item["nest"], [conv(n) for n in names]))
    bounds = [0, *item["cuts"], T]
    state, rows, metas = None, {}, None
    for n, (a, b) in enumerate(zip(bounds, bounds[1:])):
        skip = cfg["skip"] and n == 0
        c = container(item, x[a:b], idx[a:b])
        keep = c.copy(deep=True)
        want_state = len(bounds) > 2 or item["rs"]
        kw = dict(return_state=want_state)
        if not item["fmt"]:
            kw["format_outputs"] = False
        if item["local"] and item["named"]:
            kw["local_time"] = item["time"]
        st0 = None if state is None else jax.tree_util.tree_map(np.array, state)
        r = c.wax.stream(**kw).apply(module, skip_first=skip, state=state, **fd)
        if state is not None and not jax.tree_util.tree_all(jax.tree_util.tree_map(lambda u, v: np.array_equal(u, v), st0, state)):
            raise Mismatch("the given state was modified")
        if not keep.equals(c):
            raise Mismatch("the container was modified")
        if want_state:
            r, state = r
        got = unnest(item["nest"], r, len(leaves))
        if item["fmt"]:
            ds = [describe(item, g, idx) for g in got]
            meta = [dict(type=d[0], dims=d[1], shape=d[2]) for d in ds]
            if metas is not None and meta != metas:
                raise Mismatch("the leaves are not described alike in each call")
            metas = meta
            for k, d in zip(leaves, ds):
                if (k == "pos") != (d[4] == np.bool_):
                    raise Mismatch(f"type {d[4]} of {k}")
            tabs = [d[3] for d in ds]
        else:
            first = a + (1 if skip else 0)
            tabs = [dict(zip(range(first, b), np.asarray(g).reshape(b - first, -1))) for g in got]
            for g, k in zip(got, leaves):
                if list(g.shape[1:]) != [shape[d] for d in DIMS[k](len(shape))]:
                    raise Mismatch(f"raw shape {g.shape}")
        if any(list(t) != list(tabs[0]) for t in tabs):
            raise Mismatch("the leaves have different time labels")
        for t in tabs[0]:
            if not a <= t < b or t in rows:
                raise Mismatch(f"time label {t} in call {n}")
            rows[t] = [ints(tab[t]) for tab in tabs]
    return dict(meta=metas, rows=[[t, rows[t]] for t in sorted(rows)])


def auto(item):
    """tree_auto_format_with_shape on a dataset of several variables"""
    from wax.format import tree_auto_format_with_shape

    ds = xr.Dataset()
    coords = {n: np.arange(s) * 10 + i for i, (n, s) in enumerate(item["sizes"].items())}
    for n, dims in item["vars"]:
        ds[n] = xr.DataArray(np.zeros([item["sizes"][d] for d in dims]), dims=dims, coords={d: coords[d] for d in dims})
    data = np.arange(int(np.prod(item["shape"]))).reshape(item["shape"]) + 0.5
    r = tree_auto_format_with_shape(ds, {"z": [data]}, output_format=item["fmt"])["z"][0]
    if not isinstance(r, (xr.DataArray, pd.DataFrame, pd.Series)):
        return []
    if isinstance(r, xr.DataArray):
        dims, labels, vals = list(r.dims), [list(r[d].values) for d in r.dims], r.values
    else:
        axes = [r.index] + ([r.columns] if isinstance(r, pd.DataFrame) else [])
        dims, labels, vals = [n for a in axes for n in a.names], [list(a.levels[i]) if a.nlevels > 1 else list(a) for a in axes for i in range(a.nlevels)], r.values
    if not np.array_equal(np.asarray(vals).ravel(), data.ravel()):
        raise Mismatch("values")
    for d, v in zip(dims, labels):
        if v != list(coords[d]):
            raise Mismatch(f"labels of {d}")
    return dims


def autos(items):
    from vlib import _call

    return [_call(("accesslib:auto", it)) for it in items]
