"""Driver of the values delivered by the accessors (configurations of StreamData)."""
import jax
import numpy as np
import pandas as pd
import xarray as xr
from streamlib import EPOCH, stream_kwargs, times

NAN = -777777
TYPES = dict(f="float64", f4="float32", i="int64", i4="int32", u="uint32", b="bool")
DTICK = np.timedelta64(37 * 3600 + 11, "s")  # dates are whole numbers of ticks
LETTERS = "abcdefghijklmnopqrstuvwxyz"


class Mismatch(Exception):
    pass


def word(k):
    """distinct texts: several lengths, long common beginnings and ends, cases, spaces, accents, digits"""
    return (LETTERS[k % 26] * (1 + k % 3) + f"{k}", f"a common beginning of forty-one characters/{k}", f"{k}-common end", f"\u00e9{k}\u00df", f" {k}",
            f"{k} ", f"x{k}", f"X{k - 1}", f"{k}", f"0{k}")[k % 10]


def values(v, unit="ns"):
    a = np.array(v["data"])
    shape = ((len(a),) if v["on"] >= 0 else ()) + tuple(v["dims"])
    ty = v["ty"]
    if ty in ("f", "f4"):
        a = np.where(a == NAN, np.nan, a)
    if ty == "s":
        return np.array([word(int(k)) for k in a.ravel()]).reshape(shape)
    if ty == "d":
        return (EPOCH + a.astype(np.int64) * DTICK.astype("timedelta64[ns]")).astype(f"M8[{unit}]").reshape(shape)
    return a.astype(TYPES[ty]).reshape(shape)


def cells(v, enc, x, lead):
    """what was received at each step -> items as integers"""
    x = np.asarray(x)
    shape = lead + tuple(v["dims"]) + ((2,) if v["ty"] == "d" else ())
    if x.shape != shape:
        raise Mismatch(f"shape {x.shape} instead of {shape} for {dict(v, data=None)}")
    T = lead[0]
    ty = v["ty"]
    if ty == "d":
        w = x.astype(np.uint64)
        ns = ((w[..., 0] << np.uint64(32)) | w[..., 1]).astype(np.int64)
        tick = DTICK.astype("timedelta64[ns]").astype(np.int64)
        return [[int(n) // int(tick) if int(n) % int(tick) == 0 else 123456789 for n in row] for row in ns.reshape(T, -1)]
    if ty == "s":
        names = {word(int(k)): int(k) for k in np.ravel(v["data"])}
        return [[-99999 if c == -99999 else names[str(np.ravel(enc.decode(np.array([c])))[0])] for c in row] for row in x.reshape(T, -1)]
    kind = dict(f="f", f4="f", i="i", i4="i", u="u", b="b")[ty]
    if x.dtype.kind != kind:
        raise Mismatch(f"type {x.dtype} for {ty}")
    return [[NAN if c != c else int(c) for c in row] for row in x.reshape(T, -1)]


def drive(job):
    """job: cfg (local, sec, vars), how, x64, unit -> per step, per variable, the items"""
    from wax.accessors import register_wax_accessors
    from wax.stream import Stream

    register_wax_accessors()
    old = jax.config.jax_enable_x64
    jax.config.update("jax_enable_x64", bool(job.get("x64")))
    try:
        cfg, how = job["cfg"], job["how"]
        unit = job.get("unit", "ns")
        local, sec, vs = cfg["local"], cfg["sec"], cfg["vars"]
        ds = xr.Dataset()
        tk = {0: local, **{k + 1: s["times"] for k, s in enumerate(sec)}}
        tn = {0: "t_local", **{k + 1: f"t_s{k}" for k in range(len(sec))}}
        for on in tn:
            ds = ds.assign_coords({tn[on]: times(tk[on], np.datetime64(job.get("origin", "1970-01-01"), "ns")).astype(f"M8[{unit}]")})
        order = list(range(len(vs)))
        if job.get("order"):
            order = job["order"]
        for m in order:
            v = vs[m]
            dims = ((tn[v["on"]],) if v["on"] >= 0 else ()) + tuple(f"d{m}_{a}" for a in range(len(v["dims"])))
            ds[f"v{m}"] = xr.DataArray(values(v), dims=dims)
        kw = dict(format_outputs=False, return_state=False)
        T = len(local)
        if how == "dataset":
            out = ds.wax.stream(**kw, **stream_kwargs(sec)).apply(lambda d: d)
            if set(out) != {f"v{m}" for m in range(len(vs))}:
                raise Mismatch(f"variables {sorted(out)}")
            enc = Stream.get_dataset_schema(ds).encoders
        else:
            da = ds["v0"]
            name = "dataarray"
            if how == "dataframe":
                obj = pd.DataFrame(da.values, index=pd.Index(da["t_local"].values, name="t_local"))
            elif how == "series":
                obj = pd.Series(da.values, index=pd.Index(da["t_local"].values, name="t_local"))
            else:
                obj = da
            out = dict(v0=obj.wax.stream(**kw).apply(lambda d: d))
            enc = Stream.get_dataset_schema(xr.Dataset({"v0": da})).encoders
        res = []
        for m, v in enumerate(vs):
            lead = (T,)
            if v["on"] > 0 and sec[v["on"] - 1]["maxlen"]:
                lead += (sec[v["on"] - 1]["maxlen"],)
            res.append(cells(v, enc.get(f"v{m}"), out[f"v{m}"], lead))
        return [[r[t] for r in res] for t in range(T)]
    finally:
        jax.config.update("jax_enable_x64", old)
