"""Driver of the real stream synchronisation: configurations of StreamSync -> xarray."""
import contextlib
import io

import numpy as np
import xarray as xr

PERIOD = 3  # ticks per day
DAY = 24 * 3600 * 10**9
# when the ticks of a day occur: any order preserving choice that keeps midnight is a model
INNER = dict(even=[0, DAY // 3, 2 * DAY // 3], first=[0, 1, 2], ends=[0, 1, DAY - 1], last=[0, DAY - 2, DAY - 1],
             sec=[0, 10**9, DAY - 10**9], near=[0, DAY // 2, DAY // 2 + 1])
COARSE = ["even", "sec"]  # in whole seconds
EPOCH = np.datetime64("1970-01-01T00:00:00", "ns")
MISSING_INT = -99999


def times(ticks, origin=EPOCH, inner="even"):
    ns = [(t // PERIOD) * DAY + INNER[inner][t % PERIOD] for t in ticks]
    return origin + np.array(ns, dtype=np.int64).astype("timedelta64[ns]")


SHOW = {"": {}, "verbose": dict(verbose=True), "some": dict(verbose=["t_s0", "t_local"], pbar=("t_s0",)), "pbar": dict(pbar=True)}


def make_dataset(local, sec, origin=EPOCH, order=None, units=None):
    """local: ticks; sec: list of stream records (see StreamSync.tla); units: where the ticks
    occur in a day, then the units of the coordinates."""
    ds = xr.Dataset()
    names = ["local"] + [f"s{k}" for k in range(len(sec))]
    inner = units[0] if units else "even"
    units = units[1:] if units else None
    for n in order or names:
        tk = local if n == "local" else sec[int(n[1:])]["times"]
        unit = "ns" if not units else units[(len(ds) + len(tk)) % len(units)]
        ds["v_" + n] = xr.DataArray(np.arange(len(tk), dtype=np.float64), dims=("t_" + n,),
                                    coords={"t_" + n: times(tk, origin, inner).astype(f"datetime64[{unit}]")})
    return ds


def stream_kwargs(sec, show=""):
    return dict(
        **SHOW[show],
        local_time="t_local",
        freqs={f"t_s{k}": "d" for k, s in enumerate(sec) if s["period"]},
        ffills={f"t_s{k}": True for k, s in enumerate(sec) if s["ffill"]},
        buffer_maxlen={f"t_s{k}": s["maxlen"] for k, s in enumerate(sec) if s["maxlen"]},
    )


def traced(local, sec, origin=EPOCH, order=None, units=None, show=""):
    """-> (local numbers per step, [per stream: list per step of list of numbers (-1 missing)])"""
    from wax.stream import Stream

    ds = make_dataset(local, sec, origin, order, units)
    _, index, xs = Stream(**stream_kwargs(sec, show)).trace_dataset(ds)
    loc = [int(a) for a in np.asarray(index["v_local"])]
    outs = []
    for k, _ in enumerate(sec):
        a = np.asarray(index[f"v_s{k}"])
        a = a.reshape(a.shape[0], -1)
        outs.append([[int(z) if z >= 0 else -1 for z in row] for row in a])
    return loc, outs, len(np.asarray(xs))


def applied(local, sec, origin=EPOCH, order=None, units=None, show=""):
    """the same through the Dataset accessor, on values (value = observation number)"""
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    ds = make_dataset(local, sec, origin, order, units)
    out = ds.wax.stream(format_outputs=False, return_state=False, **stream_kwargs(sec, show)).apply(lambda d: d)
    loc = [int(a) for a in np.asarray(out["v_local"])]
    outs = []
    for k, _ in enumerate(sec):
        a = np.asarray(out[f"v_s{k}"])
        a = a.reshape(a.shape[0], -1)
        outs.append([[-1 if np.isnan(z) else int(z) for z in row] for row in a])
    return loc, outs, len(loc)


def merged(local, sec, origin=EPOCH, order=None, units=None, show="", skip=False):
    """the merged generator itself, unrolled with or without its first item"""
    from wax.stream import Stream, get_time_dataset, split_dataset_from_time_dims, unroll_stream

    ds = make_dataset(local, sec, origin, order, units)
    s = Stream(**stream_kwargs(sec, show))
    gen = s.merge(s.start_dataset_streams(split_dataset_from_time_dims(get_time_dataset(ds))))
    out = unroll_stream(gen, skip_first=skip, pbar=show == "pbar")
    col = lambda t: np.asarray(out[t].value[t + "_index"])  # noqa: E731
    loc = [int(a) for a in col("t_local")]
    outs = []
    for k, _ in enumerate(sec):
        a = col(f"t_s{k}")
        a = a.reshape(a.shape[0], -1)
        outs.append([[int(z) if z >= 0 else -1 for z in row] for row in a])
    if skip:  # the first item is left out, nothing else
        loc, outs = [0] + loc, [[None] + o for o in outs]
    return loc, outs, len(out["t_local"].time) + skip


def job(item):
    import jax

    f = dict(merge=merged, trace=traced, apply=applied)[item["how"]]
    kw = dict(skip=item["skip"]) if item["how"] == "merge" else {}
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), jax.enable_x64(item.get("x64", False)):
        return f(item["local"], item["sec"], np.datetime64(item.get("origin", "1970-01-01"), "ns"), item.get("order"),
                 [item.get("inner", "even"), *(item.get("units") or [])], item.get("show", ""), **kw)
