"""Drives the encoders of a dataset."""
import numpy as np
import xarray as xr
from datalib import DTICK, Mismatch, word
from streamlib import EPOCH, times

TYPES = dict(f="float64", i="int64", b="bool", u="uint32")


def make(v):
    a = np.array(v["data"])
    shape = tuple(v["dims"])
    if v["ty"] == "s":
        return np.array([word(int(k)) for k in a]).reshape(shape)
    if v["ty"] == "d":
        return (EPOCH + a.astype(np.int64) * DTICK.astype("timedelta64[ns]")).reshape(shape)
    return a.astype(TYPES[v["ty"]]).reshape(shape)


def unmake(v, a, shape):
    a = np.asarray(a)
    if a.shape != shape:
        raise Mismatch(f"shape {a.shape} instead of {shape} for {v['ty']} {v['dims']}")
    if v["ty"] == "s":
        names = {word(int(k)): int(k) for k in v["data"]}
        return [names[str(x)] for x in a.ravel()]
    if v["ty"] == "d":
        t = int(DTICK.astype("timedelta64[ns]").astype(np.int64))
        n = a.astype("M8[ns]").astype(np.int64).ravel()
        return [int(x) // t if int(x) % t == 0 else 123456789 for x in n]
    if a.dtype != TYPES[v["ty"]]:
        raise Mismatch(f"type {a.dtype}")
    return [int(x) for x in a.ravel()]


def drive(job):
    """job: cfg, ops [[op, sel]..], check -> results"""
    from wax.encode import decode_dataset, encode_dataset
    from wax.stream import Stream

    vs = job["cfg"]["vars"]
    ds = xr.Dataset()
    L = 1
    for m, v in enumerate(vs):
        dims = ("t",) * (len(v["dims"]) > 0) + tuple(f"d{m}_{k}" for k in range(len(v["dims"]) - 1))
        ds[f"v{m}"] = xr.DataArray(make(v), dims=dims)
        L = v["dims"][0] if v["dims"] else L
    if job.get("coord") and "t" in ds.dims:
        ds = ds.assign_coords(t=times(range(L)))
        ds = ds.assign_coords(names=(("t",), np.array([word(k) for k in range(L)])))
    enc = Stream.get_dataset_schema(ds, check=bool(job.get("check"))).encoders
    if {k for k in enc if k.startswith("v")} != {f"v{m}" for m, v in enumerate(vs) if v["ty"] in "sd"}:
        raise Mismatch(f"encoders of {sorted(map(str, enc))}")
    if job.get("coord") and "t" in ds.dims:
        for c in ("t", "names"):
            if not (enc[c].decode(enc[c].encode(ds[c].values)) == ds[c].values).all():
                raise Mismatch(f"coordinate {c}")
    vals = {f"v{m}": ds[f"v{m}"].values for m in range(len(vs))}
    codes = {}  # var -> class numbers of the codes seen
    code_of = {}  # var -> item -> code
    out = []

    def rows(v, sel):
        return tuple(v["dims"]) if not v["dims"] else (len(sel),) + tuple(v["dims"][1:])

    for op, sel in job["ops"]:
        ix = np.array(sel) - 1
        res = []
        if op == "encode":
            src = {k: (a[ix] if vs[int(k[1:])]["dims"] else a) for k, a in vals.items()}
            keep = {k: a.copy() for k, a in src.items()}
            got = encode_dataset(enc, src)
            if any(not np.array_equal(keep[k], src[k]) for k in src):
                raise Mismatch("the dataset was modified")
            for m, v in enumerate(vs):
                k = f"v{m}"
                if v["ty"] not in "sd":
                    res.append(unmake(v, got[k], rows(v, sel)))
                    continue
                n = int(np.prod(rows(v, sel)))
                flat = np.asarray(got[k]).reshape(n, -1)
                cl = codes.setdefault(k, {})
                res.append([cl.setdefault(tuple(map(int, c)), len(cl) + 1) for c in flat])
                for x, c in zip(np.ravel(src[k]), flat):
                    code_of[k, str(x)] = c
        else:
            src = {}
            for m, v in enumerate(vs):
                k = f"v{m}"
                a = vals[k][ix] if v["dims"] else vals[k]
                if v["ty"] in "sd":
                    c = np.stack([code_of[k, str(x)] for x in np.ravel(a)])
                    # texts of several dimensions are encoded flat
                    a = c[:, 0] if v["ty"] == "s" else c.reshape(a.shape + (2,))
                src[k] = a
            got = decode_dataset(enc, src)
            for m, v in enumerate(vs):
                res.append(unmake(v, got[f"v{m}"], rows(v, sel)))
        if set(got) != set(vals):
            raise Mismatch(f"variables {sorted(got)}")
        out.append(dict(op=op, sel=list(sel), r=res))
    return out
