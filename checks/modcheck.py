"""Replays behaviours of a streaming-module specification and records random executions."""
import json

import numpy as np
from vlib import close, proj, unproj


UNSEEN = 987654321.0  # an output the adapter does not let see


def arr(xs):
    """behaviour inputs [[..[n,d]..] per step] -> array [T, C]"""
    return np.array([[unproj(v) for v in step] for step in xs], dtype=float)


def degrees(ck, items, degree):
    """runs a part of the items in another unit: degree(job) gives the degree of the outputs
    (a number or one per output), or None"""
    for j in items:
        if j.get("layout") == "session" or ck.rng.random() > 0.4:
            continue
        dt = j.get("dtype", "float64")
        dts = dt if isinstance(dt, list) else [dt]
        d = degree(j)
        if d is None or not any(a.startswith("float") for a in dts):
            continue
        k = [-20, -8, 8, 20] if "float32" in dts or not j.get("x64", True) else [-90, -40, -12, 12, 40, 90]
        j["unit"], j["deg"] = ck.rng.choice(k), d


def run_items(ck, regmod, items, size=4):
    for j in items:
        if j.get("layout") != "session" and "sib" not in j and ck.rng.random() < 0.3:
            j["sib"] = ck.rng.choice(["before", "after"])
    order = list(range(len(items)))
    ck.rng.shuffle(order)  # balance the work
    chunks = [order[a:a + size] for a in range(0, len(order), size)]
    res = ck.pmap("modlib:jobs", [(regmod, [items[i] for i in c]) for c in chunks], chunk=1)
    out = [None] * len(items)
    for c, (status, v) in zip(chunks, res):
        if status != "ok":
            raise RuntimeError(v)
        for i, r in zip(c, v):
            out[i] = r
    return out


def replay(ck, regmod, behs, variants, clause="Output", limit=None, tol=1e-9, case_of=None, degree=None, x64=0.15):
    """behs: [{"c": cfg, "h": [{"x": [..], "y": [..]}]}]; variants(cfg) -> list of job dicts
    (lib, mod, how, layout, dtype, [n] = number of histories, [sel] = filter)."""
    groups = {}
    for b in behs:
        groups.setdefault((json.dumps(b["c"], sort_keys=True), len(b["h"])), []).append(b)
    items, meta = [], []
    for (c, T), bs in sorted(groups.items()):
        cfg = bs[0]["c"]
        for v in variants(cfg):
            sel = [b for b in bs if v["sel"](b)] if "sel" in v else bs
            if not sel:
                continue
            n = v.get("n", limit or len(sel))
            sel = sel if len(sel) <= n else ck.rng.sample(sel, n)
            # equal shared channels: group by them
            parts = {}
            for b in sel:
                k = json.dumps([[s["x"][i] for i in v.get("scalar_chans", ())] for s in b["h"]]) if v.get("scalar_chans") else ""
                parts.setdefault(k, []).append(b)
            keys = sorted(parts)
            if v.get("scalar_chans"):
                keys = keys if len(keys) <= v.get("np", 6) else ck.rng.sample(keys, v.get("np", 6))
            for k in keys:
                g = parts[k]
                j = {a: z for a, z in v.items() if a not in ("sel", "n", "np", "style")}
                j.update(cfg=dict(cfg, **v.get("style", {})), x=np.stack([arr([s["x"] for s in b["h"]]) for b in g]))
                items.append(j)
                meta.append(g)
    for j in items:
        if j.get("layout") != "session" and ck.rng.random() < x64:
            j["x64"] = False
    if degree:
        degrees(ck, items, degree)
    res = run_items(ck, regmod, items)
    count = {}
    for j, g, (status, y) in zip(items, meta, res):
        tag = f"{j['lib']}/{j['how']}/{j.get('layout', 'cols')}"
        count[tag] = count.get(tag, 0) + len(g)
        case = dict(lib=j["lib"], mod=j["mod"], how=j["how"], layout=j.get("layout", "cols"), **sib(j), **flat(j["cfg"]))
        if case_of:
            case = case_of(j, case)
        if status != "ok":
            ck.violation("Raises", case, dict(cfg=j["cfg"], error=y, inputs=g[0]["h"]))
            continue
        for b, yy in zip(g, y):
            T = len(b["h"])
            ck.replayed(1, T, T * len(b["h"][-1]["y"]))
            for t, s in enumerate(b["h"]):
                want = s["y"]
                tl = j.get("tol32", 1e-5) if "float32" in j.get("dtype", "") or not j.get("x64", True) else tol
                if len(want) != len(yy[t]) or not all(a == UNSEEN or close(a, w, tl) for a, w in zip(yy[t], want)):
                    ck.violation(s.get("clause", clause), case, dict(cfg=j["cfg"], step=t, inputs=[h["x"] for h in b["h"]],
                                 want=want, got=[float(a) for a in yy[t]], dtype=j.get("dtype")))
                    break
    ck.notes.setdefault("histories_per_driver", {}).update(count)
    if meta:
        ck.sample(dict(cfg=items[0]["cfg"], behaviour=meta[0][0]["h"]))


def record(ck, regmod, module, scen, den=60000, tol=1e-9, tweak=None, case_of=None, constants=None, degree=None):
    """scen: job dicts with x [N,T,C]; executions are validated by the trace module."""
    traces = []
    if degree:
        degrees(ck, scen, degree)
    res = run_items(ck, regmod, scen)
    for j, (status, y) in zip(scen, res):
        case = dict(lib=j["lib"], mod=j["mod"], how=j["how"], layout=j.get("layout", "cols"), **sib(j), **flat(j["cfg"]))
        if case_of:
            case = case_of(j, case)
        if status != "ok":
            ck.violation("Raises", case, dict(cfg=j["cfg"], error=y))
            continue
        for n in range(len(j["x"])):
            ev = [dict(x=[proj(v, den, tol) for v in j["x"][n][t]], y=[proj(v, den, tol) for v in y[n][t]]) for t in range(len(j["x"][n]))]
            if tweak:
                ev = tweak(j, ev, y[n])
            traces.append(dict(cfg=j["cfg"], ev=ev, case=case))
    ck.validate(module, traces, case_of=lambda t, v: t["case"], constants=constants)

    def corrupt(t):
        e = t["ev"][-1]
        for k, v in enumerate(e["y"]):
            if v[1] > 0:
                e["y"][k] = [v[0] + v[1], v[1]]
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    ck.selftest_binding(module, traces, corrupt, constants=constants)
    if traces:
        ck.sample(dict(recorded=traces[0]["ev"][:6], cfg=traces[0]["cfg"]))
    return traces


def sib(j):
    return {k: j[k] for k in ("sib", "unit", "x64") if k in j}


def flat(cfg):
    return {k: (v if not isinstance(v, list) else json.dumps(v)) for k, v in cfg.items() if k not in ("lib", "mod")}
