"""Drives wax.encode on numbers given as 8 bytes, most significant first."""
import datetime

import numpy as np
import pandas as pd

DAY = 86400 * 10**9


def num(d):
    return int.from_bytes(bytes(d), "big", signed=True)


def digits(n):
    return list(int(n).to_bytes(8, "big", signed=True))


def wdigits(w):
    w = np.asarray(w)
    assert w.shape == (2,), w.shape
    return [list(int(v).to_bytes(4, "big")) for v in w]


def encode(how, n):
    from wax import encode as E

    if how == "int":
        return E.encode_int64(n)
    if how == "np":
        return E.encode_int64(np.int64(n))
    if how == "array":
        return E.encode_int64(np.array(n))
    if how == "timestamp":
        return E.encode_timestamp(pd.Timestamp(n))
    if how == "datetime":
        return E.encode_datetime(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=n // 1000))
    unit = how.split(":")[1]
    return E.encode_datetime64(np.datetime64(n, "ns").astype(f"M8[{unit}]"))


def decode(how, code):
    from wax import encode as E

    if how in ("int", "np", "array"):
        r = E.decode_int64(code)
        assert isinstance(r, int)
        return r
    if how == "timestamp":
        r = E.decode_timestamp(code)
        assert isinstance(r, pd.Timestamp) or r is pd.NaT
        return r.value
    if how == "datetime":
        r = E.decode_datetime(code)
        assert type(r) is datetime.datetime
        d = r - datetime.datetime(1970, 1, 1)
        return ((d.days * 86400 + d.seconds) * 10**6 + d.microseconds) * 1000
    r = E.decode_datetime64(code)
    assert r.dtype == "M8[ns]"
    return int(r.astype(np.int64))


def exact(how, n):
    """the number that an encoder of this kind can be given"""
    q = dict(datetime=1000).get(how) or {"ns": 1, "us": 10**3, "s": 10**9, "D": DAY}.get(how.partition(":")[2], 1)
    return n - n % q


def floor(how, n, code):
    from wax import encode as E

    if how == "key":
        return int.from_bytes(b"".join(bytes(b) for b in wdigits(E.floor_jax_datekey(code))), "big", signed=True)
    if how == "array":
        r = E.floor_datetime(np.array([n, n]).astype("M8[ns]"))
        assert r[0] == r[1]
        return int(r[0].astype(np.int64))
    return int(np.asarray(E.floor_datetime(np.datetime64(n, "ns"))).astype(np.int64))


def drive(job):
    """job: list of [how, op, a, b] -> results as digits"""
    import jax.numpy as jnp
    from wax import encode as E

    out = []
    for how, op, a, b in job:
        n = num(a)
        try:
            if op == "less":
                x, y = E.encode_int64(num(b)), E.encode_int64(n)
                if how == "jax":
                    x, y = jnp.asarray(x), jnp.asarray(y)
                out.append(bool(E.less(x, y)))
                continue
            if op == "floor":
                r = floor(how, n, E.encode_int64(n))
                out.append([digits(r), r // DAY])
                continue
            code = encode(how, n)
            if np.asarray(code).dtype != np.uint32:
                raise TypeError(f"words of type {np.asarray(code).dtype}")
            if op == "encode":
                out.append(wdigits(code))
            else:
                out.append(digits(decode(how, jnp.asarray(code) if how == "np" else code)))
        except Exception as e:  # noqa: BLE001
            out.append(f"{type(e).__name__}: {str(e)[:200]}")
    return out
