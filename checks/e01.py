"""E01 exponential moving average: Ewm.tla bound to EWMA (Haiku, Flax)."""
import math

import numpy as np
from modcheck import degrees, replay, run_items

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume"], fx=["scan", "loop", "resume"])
SY = 512


def degree(j):
    return [1, 0, 0] if j["cfg"]["info"] else 1


def run(ck):
    rng = ck.rng
    th = ck.thorough
    inv = ["FromHistory", "Convex", "MissingExactly"]
    r = ck.tlc("MCEwm", dict(Alphas="={<<1,2>>, <<1,4>>, <<2,3>>}", Inits="={NaN, I(5)}", MinPs="={0, 2}", Infos="={FALSE}",
                             Vals="={I(4), I(-2)}", T=5), spec="Spec", invariants=inv)
    r2 = ck.tlc("MCEwm", dict(Alphas="={<<1,1>>, <<1,3>>}", Inits="={NaN, I(0)}", MinPs="={1, 3}", Infos="={TRUE}",
                              Vals="={I(3), I(0)}", T=5 if th else 4), spec="Spec", invariants=inv)

    def variants(cfg):
        out = []
        for lib in ("hk", "fx"):
            for how in (HOWS[lib] if th else rng.sample(HOWS[lib], 1)):
                out.append(dict(lib=lib, mod="ewma", how=how, layout="cols"))
            if rng.random() < (1 if th else 0.3):
                out.append(dict(lib=lib, mod="ewma", how=rng.choice(["scan", "loop"]), layout=rng.choice(["mat", "cube"]), n=40))
            if rng.random() < (1 if th else 0.2):
                out.append(dict(lib=lib, mod="ewma", how=rng.choice(["scan", "eager"]), layout="scalar", n=2))
            if rng.random() < (1 if th else 0.2):
                out.append(dict(lib=lib, mod="ewma", how="scan", layout="cols", dtype="float32", n=60))
        return out

    replay(ck, "ewmlib", r.get("B") + r2.get("B"), variants, clause="EwmOutput", degree=degree)
    scen = []
    for q in range(200 if th else 40):
        long = q % 8 == 0
        cfg = dict(alpha=rng.choice([[1, 2], [1, 3], [1, 5], [1, 8], [3, 4], [2, 7]]), adjust=rng.choice(["true", "false", "linear"]), ignore=rng.random() < 0.5,
                   init=[0, 0] if rng.random() < 0.7 else [rng.randint(-8, 8), 1], minp=rng.choice([1, 9, 100, 140, 200]) if long else rng.choice([0, 0, 1, 2, 5, 9]), info=False)
        T, N = rng.randint(270, 420) if long else rng.randint(20, 60), 2
        pn = rng.choice([0, 0.15] if long else [0, 0.15, 0.5])
        x = np.array([[[float("nan") if rng.random() < pn else rng.randint(-80, 80) / 8] for _ in range(T)] for _ in range(N)])
        lib = rng.choice(["hk", "fx"])
        scen.append(dict(lib=lib, mod="ewma", how=rng.choice(HOWS[lib][:2] + ["resume"]), layout="cols", cfg=cfg, x=x))
    validate_long(ck, "ewmlib", scen)
    ck.assumptions.append("values are finite or missing; long histories (20 to 420 steps) are compared in fixed point, within 0.02")


def fix(v):
    v = float(v)
    if math.isnan(v):
        return [0, 1]
    if abs(v) > 100:
        return [10**6, 0]
    return [round(v * SY), 0]


def validate_long(ck, regmod, scen):
    degrees(ck, scen, degree)
    traces = []
    for j, (status, y) in zip(scen, run_items(ck, regmod, scen)):
        case = dict(lib=j["lib"], mod=j["mod"], how=j["how"])
        if status != "ok":
            ck.violation("Raises", case, dict(cfg=j["cfg"], error=y))
            continue
        traces += long_traces(j["cfg"], j["x"][:, :, 0], np.asarray(y)[:, :, 0], case)
    ck.validate("TraceEwm", traces, case_of=lambda t, v: t["case"], constants=dict(Tol=10))
    selftest(ck, traces)


def long_traces(cfg, x, y, case):
    c = dict(a=cfg["alpha"], adjust=cfg["adjust"], ignore=cfg["ignore"], minp=cfg["minp"],
             init=[0, 1] if cfg["init"][1] == 0 else [cfg["init"][0] * SY // cfg["init"][1], 0])
    return [dict(cfg=c, ev=[dict(x=fix(x[n][t]), y=fix(y[n][t])) for t in range(x.shape[1])], case=case) for n in range(len(x))]


def selftest(ck, traces):
    def corrupt(t):
        for e in reversed(t["ev"]):
            if e["y"][1] == 0:
                e["y"][0] += 40
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    ck.selftest_binding("TraceEwm", traces, corrupt, constants=dict(Tol=10))
    if traces:
        ck.sample(dict(recorded=traces[0]["ev"][:6], cfg=traces[0]["cfg"]))
