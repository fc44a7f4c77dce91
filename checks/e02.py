"""E02 EWMA front ends: Ewm.tla and EwmSession.tla bound to numba, pandas and xarray accessors."""
import json

import numpy as np
from e01 import long_traces, selftest
from modcheck import arr, sib
from vlib import close, unproj

WHOLE = ["numba2d", "numba1d", "df_numba", "series_numba", "df_wax", "da_wax", "da_noformat", "series_wax", "ds_wax", "module"]
SESS = ["numba1d", "numba2d", "df_numba", "series_numba", "df_wax", "series_wax", "da_wax"]


def run_items(ck, items, size=2):
    for j in items:
        if ck.rng.random() < 0.4:
            j["unit"] = ck.rng.choice([-20, -8, 8, 20])
        if "numba" not in j["front"] and ck.rng.random() < 0.3:
            j["x64"] = False
    chunks = [items[a:a + size] for a in range(0, len(items), size)]
    out = []
    for status, v in ck.pmap("ewmfront:jobs", chunks, chunk=1):
        if status != "ok":
            raise RuntimeError(v)
        out += v
    return out


def groups(behs):
    g = {}
    for b in behs:
        g.setdefault(json.dumps(b["c"], sort_keys=True), []).append(b)
    return [g[k] for k in sorted(g)]


def run(ck):
    rng = ck.rng
    th = ck.thorough
    r = ck.tlc("MCEwm", dict(Alphas="={<<1,2>>, <<1,4>>}" if th else "={<<1,4>>}", Inits="={NaN, I(5)}", MinPs="={0, 2}", Infos="={FALSE}",
                             Vals="={I(4), I(-2)}", T=4), spec="Spec", invariants=["FromHistory", "Convex", "MissingExactly"])
    items, meta = [], []
    for n, bs in enumerate(groups(r.get("B"))):
        fronts = WHOLE if th else [WHOLE[n % 4], WHOLE[4 + n % 6], rng.choice(WHOLE)]
        for f in fronts:
            b = bs if not th or f != "series_wax" else bs[:4]
            x = np.stack([arr([s["x"] for s in z["h"]])[:, 0] for z in b], axis=1)
            items.append(dict(do="whole", front=f, cfg=bs[0]["c"], x=x))
            meta.append(b)
    # ---- sessions
    r2 = ck.tlc("MCEwmSession", dict(Alphas="={<<1,2>>, <<1,4>>}" if th else "={<<1,4>>}", Inits="={NaN, I(5)}", MinPs="={0, 2}", Vals="={I(4), I(-2), NaN}",
                                     MaxChunk=2, Calls=3 if th else 2), spec="Spec", invariants=["StateIsHistory"])
    sb = groups(r2.get("B"))
    if not th:
        r3 = ck.tlc("MCEwmSession", dict(Alphas="={<<1,3>>}", Inits="={NaN}", MinPs="={1}", Vals="={I(4), NaN}",
                                         MaxChunk=2, Calls=3), spec="Spec", invariants=["StateIsHistory"])
        sb += groups(r3.get("B"))
    for n, bs in enumerate(sb):
        fronts = SESS if th else ([SESS[n % 4]] + ([SESS[4 + (n // 2) % 3]] if n % 2 == 0 else []))
        for f in fronts:
            k = {"numba1d": 300, "numba2d": 300, "df_numba": 4, "series_numba": 3}.get(f, 4 if th else 2)
            sel = bs if len(bs) <= k else rng.sample(bs, k)
            items.append(dict(do="sessions", front=f, cfg=dict(bs[0]["c"], info=False),
                              runs=[[(h["k"], [unproj(v) for v in h["x"]]) for h in b["h"]] for b in sel]))
            meta.append(sel)
    order = list(range(len(items)))
    rng.shuffle(order)
    res = run_items(ck, [items[i] for i in order])
    count = {}
    for i, (status, y) in zip(order, res):
        j, bs = items[i], meta[i]
        count[f"{j['do']}/{j['front']}"] = count.get(f"{j['do']}/{j['front']}", 0) + len(bs)
        case = dict(do=j["do"], front=j["front"], **sib(j), adjust=j["cfg"]["adjust"], ignore=j["cfg"]["ignore"])
        if status != "ok":
            ck.violation("Unmodified" if "Mutated" in y else "Raises", case, dict(cfg=j["cfg"], error=y))
            continue
        for n, b in enumerate(bs):
            if j["do"] == "whole":
                if n >= y.shape[1]:
                    continue
                got = [[v] for v in y[:, n]]
                want = [s["y"] for s in b["h"]]
            else:
                got, want = y[n], [s["y"] for s in b["h"]]
            ck.replayed(1, len(want))
            for t, (w, g) in enumerate(zip(want, got)):
                if len(w) != len(g) or not all(close(a, c, 1e-9 if j.get("x64", True) else 1e-5) for a, c in zip(g, w)):
                    ck.violation("FrontEnd" if j["do"] == "whole" else "Resume", case,
                                 dict(cfg=j["cfg"], at=t, behaviour=b["h"], want=w, got=g))
                    break
    ck.notes["behaviours_per_front_end"] = count
    # ---- long executions, in one call, by every front end
    items = []
    for n in range(120 if th else 24):
        long = (n + n // len(WHOLE)) % 3 == 0
        cfg = dict(alpha=rng.choice([[1, 2], [1, 3], [1, 5], [1, 8], [3, 4]]), adjust=rng.choice(["true", "false", "linear"]), ignore=rng.random() < 0.5,
                   init=[0, 0] if rng.random() < 0.7 else [rng.randint(-8, 8), 1], minp=rng.choice([1, 9, 100, 140, 200] if long else [0, 1, 2, 5, 9]), info=False)
        pn = rng.choice([0, 0.15] if long else [0, 0.15, 0.5])
        x = np.array([[float("nan") if rng.random() < pn else rng.randint(-80, 80) / 8 for _ in range(2)] for _ in range(rng.randint(270, 420) if long else rng.randint(20, 60))])
        items.append(dict(do="whole", front=WHOLE[n % len(WHOLE)], cfg=cfg, x=x))
    traces = []
    for j, (status, y) in zip(items, run_items(ck, items)):
        case = dict(do="long", front=j["front"], **sib(j))
        if status != "ok":
            ck.violation("Raises", case, dict(cfg=j["cfg"], error=y))
            continue
        traces += long_traces(j["cfg"], j["x"].T, y.T, case)
    ck.validate("TraceEwm", traces, case_of=lambda t, v: t["case"], constants=dict(Tol=10))
    selftest(ck, traces)
    ck.assumptions.append("values are finite or missing; com > 0 (the numba implementation asserts it)")
