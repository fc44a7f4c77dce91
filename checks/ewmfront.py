"""Drivers of the EWMA front ends: numba, pandas accessors, wax accessors."""
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd
import xarray as xr
from ewmlib import kwargs
from modlib import in_unit

warnings.filterwarnings("ignore")
jax.config.update("jax_enable_x64", True)


class Mutated(Exception):
    pass


def index(n, start=0):
    return pd.date_range("2000-01-01", periods=start + n, freq="D")[start:]


def frozen(a):
    return np.array(a)


def check_same(a, b, what):
    if not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True):
        raise Mutated(what)


def whole(job):
    """x [T, N] -> y [T, N] by one front end in one call"""
    from wax.accessors import register_wax_accessors
    from wax.modules import EWMA
    from wax.numba.ewma_numba import ewma, register_wax_numba

    register_wax_accessors()
    register_wax_numba()
    kw = kwargs(job["cfg"])
    x = np.asarray(job["x"], dtype=job.get("dtype", "float64"))
    T, N = x.shape
    keep = frozen(x)
    f = job["front"]
    cols = [f"c{(i * 7) % 1000}_{i}" for i in range(N)]
    if f == "numba2d":
        y, _ = ewma(**kw)(x)
    elif f == "numba1d":
        g = ewma(**kw)
        y = np.stack([g(x[:, i])[0] for i in range(N)], axis=1)
    elif f == "df_numba":
        df = pd.DataFrame(x, index(T), cols)
        r = df.wax_numba.ewm(**kw).mean()
        assert list(r.columns) == cols and (r.index == df.index).all()
        check_same(df.values, keep, "dataframe")
        y = r.values
    elif f == "series_numba":
        n = min(N, 3)
        y = np.full(x.shape, np.nan)
        for i in range(n):
            s = pd.Series(x[:, i], index(T))
            r = s.wax_numba.ewm(**kw).mean()
            assert (r.index == s.index).all() and r.ndim == 1
            y[:, i] = r.values
        y = y[:, :n]
    elif f == "df_wax":
        df = pd.DataFrame(x, index(T), cols)
        r = df.wax.ewm(**kw).mean()
        assert list(r.columns) == cols and (r.index == df.index).all()
        y = r.values
    elif f == "da_wax":
        da = xr.DataArray(x.reshape(T, 1, N), dims=("time", "a", "b"), coords={"time": index(T), "a": [3], "b": cols})
        r = da.wax.ewm(**kw).mean()
        assert r.dims == da.dims and list(r.b.values) == cols
        y = r.values.reshape(T, N)
    elif f == "da_noformat":
        da = xr.DataArray(x, dims=("time", "b"), coords={"time": index(T), "b": cols})
        y = np.asarray(da.wax.ewm(format_outputs=False, **kw).mean())
    elif f == "series_wax":
        y = np.stack([pd.Series(x[:, i], index(T).rename("time")).wax.ewm(**kw).mean().values for i in range(min(N, 2))], axis=1)
    elif f == "ds_wax":
        half = N // 2
        ds = xr.Dataset({"p": (("time", "b"), x[:, :half]), "q": (("time", "c"), x[:, half:])},
                        coords={"time": index(T), "b": cols[:half], "c": cols[half:]})
        r = ds.wax.stream(return_state=False).apply(lambda d: {k: EWMA(name=k, **kw)(v) for k, v in d.items()},
                                  format_dims={"p": np.array(ds.p.dims), "q": np.array(ds.q.dims)})
        y = np.concatenate([r["p"].values, r["q"].values], axis=1)
    elif f == "module":
        t = hk.transform_with_state(lambda v: EWMA(**kw)(v))
        p, s = t.init(None, jnp.asarray(x[0]))
        y = np.asarray(jax.lax.scan(lambda s, v: t.apply(p, s, None, v)[::-1], s, jnp.asarray(x))[1])
    else:
        raise ValueError(f)
    check_same(x, keep, "input array")
    return np.asarray(y, dtype=float)


def sessions(job):
    """list of behaviours (same options) run as sessions of one front end"""
    from wax.accessors import register_wax_accessors
    from wax.modules import EWMA
    from wax.numba.ewma_numba import ewma, register_wax_numba

    register_wax_accessors()
    register_wax_numba()
    kw = kwargs(job["cfg"])
    f = job["front"]
    g = ewma(**kw) if f.startswith("numba") else None
    res = []
    for calls in job["runs"]:
        states = [None]
        outs = []
        for n, (k, xs) in enumerate(calls):
            x = np.array(xs, dtype=float)
            st = states[k]
            before = None if st is None else jax.tree_util.tree_map(frozen, st if not isinstance(st, (pd.DataFrame, pd.Series)) else st.values)
            if f == "numba1d":
                y, s2 = g(x, st)
            elif f == "numba2d":
                v = np.stack([x, x[::-1], x], axis=1)
                y, s2 = g(v, st)
                check_same(y[:, 0], y[:, 2], "equal columns differ")
                y = y[:, 0]
            elif f == "df_numba":
                cols = ["a", "b"] if n % 2 == 0 else ["b", "a"]
                df = pd.DataFrame({"a": x, "b": 0 * x + 1}, index(len(x)))[cols]
                y, s2 = df.wax_numba.ewm(return_state=True, **kw).mean(state=st)
                y = y["a"].values
            elif f == "series_numba":
                y, s2 = pd.Series(x, index(len(x)), name="s").wax_numba.ewm(return_state=True, **kw).mean(state=st)
                y = y.values
            elif f in ("df_wax", "series_wax", "da_wax"):
                m = lambda v: EWMA(**kw)(v)  # noqa: E731
                if f == "df_wax":
                    c = pd.DataFrame({"a": x, "b": 0 * x + 1}, index(len(x)))
                elif f == "series_wax":
                    c = pd.Series(x, index(len(x)).rename("time"))
                else:
                    c = xr.DataArray(x[:, None], dims=("time", "b"), coords={"time": index(len(x)), "b": [5]})
                y, s2 = c.wax.stream(return_state=True).apply(m, state=st)
                y = np.asarray(y).reshape(len(x), -1)[:, 0]
            else:
                raise ValueError(f)
            if before is not None:
                after = st.values if isinstance(st, (pd.DataFrame, pd.Series)) else st
                for a, b in zip(jax.tree_util.tree_leaves(before), jax.tree_util.tree_leaves(after)):
                    check_same(a, b, "the state passed by the caller was modified")
            check_same(x, np.array(xs, dtype=float), "input array")
            states.append(s2)
            outs.append([float(v) for v in y])
        res.append(outs)
    return res


def job(j):
    """in the unit 2**unit, with or without 64 bits (see modlib.run)"""
    k = j.get("unit", 0)
    u = 2.0**k
    if j["do"] == "whole":
        j = dict(j, cfg=in_unit(j["cfg"], k), x=np.asarray(j["x"]) * u)
    else:
        j = dict(j, cfg=in_unit(j["cfg"], k), runs=[[(a, [v * u for v in xs]) for a, xs in calls] for calls in j["runs"]])
    with jax.enable_x64(j.get("x64", True)):
        r = dict(whole=whole, sessions=sessions)[j["do"]](j)
    return r / u if j["do"] == "whole" else [[[v / u for v in o] for o in outs] for outs in r]


def jobs(items):
    from vlib import _call

    return [_call(("ewmfront:job", it)) for it in items]
