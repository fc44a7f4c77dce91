"""E03 exponentially weighted variance and covariance: EwmCov.tla bound to EWMVar and EWMCov."""
import math

import numpy as np
from modcheck import degrees, record, replay, run_items

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume"], fx=["scan", "loop", "resume"])


def degree(j):
    # the initial value is that of the averages of the values and of the products
    return 2 if j["cfg"]["kind"] == "var" or j["cfg"]["init"][1] == 0 else None


def run(ck):
    rng = ck.rng
    th = ck.thorough
    r = ck.tlc("MCEwmCov", dict(Alphas="={<<1,2>>, <<1,4>>, <<1,3>>}" if th else "={<<1,4>>}", Inits="={NaN, I(1)}", MinPs="={0, 1, 2}" if th else "={0, 2}",
                                TV=5, TC=3), spec="Spec", invariants=["VarFromHistory", "VarPositive", "CovFromHistory", "CellsIndependent"])

    def variants(cfg):
        out = []
        for lib in ("hk", "fx"):
            if cfg["kind"] == "var":
                for how in HOWS[lib]:
                    out.append(dict(lib=lib, mod="ewmvar", how=how, layout="cols"))
                out.append(dict(lib=lib, mod="ewmvar", how="scan", layout=rng.choice(["mat", "cube"]), n=60))
                out.append(dict(lib=lib, mod="ewmvar", how="scan", layout="scalar", n=2))
                out.append(dict(lib=lib, mod="ewmvar", how="scan", layout="cols", dtype="float32", n=60))
            else:
                out.append(dict(lib=lib, mod="ewmcov", how="scan", layout="vmap", n=1500))
                if rng.random() < (1 if th else 0.4):
                    out.append(dict(lib=lib, mod="ewmcov", how=rng.choice(HOWS[lib]), layout="scalar", n=2))
        return out

    replay(ck, "ewmlib", r.get("B"), variants, clause="Output", degree=degree)
    base = dict(kind="var", alpha=[1, 1], adjust="true", ignore=True, init=[0, 0], minp=0, centered=False, swap=False)
    scen = []
    nan = float("nan")
    for _ in range(160 if th else 40):
        if rng.random() < 0.4:
            cfg = dict(base, alpha=rng.choice([[1, 2], [1, 4]]), adjust=rng.choice(["true", "false", "linear"]))
            T = 7 if cfg["adjust"] == "linear" else 5 if cfg["alpha"] == [1, 2] else 4
            x = np.array([[[nan if rng.random() < 0.2 else rng.randint(-6, 6)] for _ in range(T)] for _ in range(2)])
            lay, mod = "cols", "ewmvar"
        else:
            cfg = dict(base, kind="cov", alpha=[1, 2], adjust=rng.choice(["true", "false", "linear"]), ignore=rng.random() < 0.5,
                       minp=rng.randint(0, 3), centered=rng.random() < 0.3, swap=rng.random() < 0.5, init=[0, 0] if rng.random() < 0.7 else [1, 1])
            x = np.array([[[nan if rng.random() < 0.2 else rng.randint(-3, 3) for _ in range(3)] for _ in range(4)] for _ in range(2)])
            lay, mod = "scalar", "ewmcov"
            if rng.random() < 0.3:
                cfg["call"] = "tuple"
        lib = rng.choice(["hk", "fx"])
        scen.append(dict(lib=lib, mod=mod, how=rng.choice(HOWS[lib][:2] + ["resume"]), layout=lay, cfg=cfg, x=x))
    record(ck, "ewmlib", "TraceEwmCov", scen, den=10**6, degree=degree)
    longs(ck, base)
    ck.assumptions.append("values are finite or missing; long histories (20 to 400 steps) are compared in fixed point, within 0.03")


SY = 2048


def fix(v):
    v = float(v)
    return [0, 1] if math.isnan(v) else [10**6, 0] if abs(v) > 100 else [round(v * SY), 0]


def longs(ck, base):
    rng, nan = ck.rng, float("nan")
    scen = []
    for q in range(120 if ck.thorough else 32):
        kind = rng.choice(["var", "cov"])
        T = rng.randint(270, 400) if q % 6 == 0 else rng.randint(20, 60)
        cfg = dict(base, kind=kind, alpha=rng.choice([[1, 2], [1, 3], [1, 4], [3, 4]]), adjust=rng.choice(["true", "false", "linear"]))
        if kind == "cov":
            cfg.update(ignore=rng.random() < 0.5, centered=rng.random() < 0.3, swap=rng.random() < 0.5, minp=rng.choice([0, 2, 9, 140]) if T > 250 else rng.choice([0, 2, 5]),
                       init=[0, 0] if rng.random() < 0.7 else [rng.randint(-2, 2), 1])
        pn = rng.choice([0, 0.15, 0.4])
        x = np.array([[[nan if rng.random() < pn else rng.randint(-8, 8) / 2 for _ in range(1 if kind == "var" else 3)] for _ in range(T)] for _ in range(2)])
        lib = rng.choice(["hk", "fx"])
        scen.append(dict(lib=lib, mod="ewm" + kind, how=rng.choice([*HOWS[lib][:1], "resume"] if T > 250 else [*HOWS[lib][:2], "resume"]), layout="cols" if kind == "var" else "scalar", cfg=cfg, x=x))
    degrees(ck, scen, degree)
    traces = []
    for j, (status, y) in zip(scen, run_items(ck, "ewmlib", scen)):
        c = j["cfg"]
        case = dict(lib=j["lib"], mod=j["mod"], how=j["how"])
        if status != "ok":
            ck.violation("Raises", case, dict(cfg=c, error=y))
            continue
        k = dict(kind=c["kind"], a=c["alpha"], adjust=c["adjust"], ignore=c["ignore"], minp=c["minp"], centered=c["centered"], sy=SY,
                 init=[0, 1] if c["init"][1] == 0 else [c["init"][0] * SY, 0])
        x, y = j["x"], np.asarray(y)
        for n in range(len(x)):
            for a in range(1 if c["kind"] == "var" else 2):
                ev = [dict(x=fix(v[a]), y=fix(v[-1]), z=fix(w[a])) for v, w in zip(x[n], y[n])]
                traces.append(dict(cfg=k, ev=ev, case=case))
    ck.validate("TraceMoments", traces, case_of=lambda t, v: t["case"], constants=dict(Tol=60))

    def corrupt(t):
        for e in reversed(t["ev"]):
            if e["z"][1] == 0:
                e["z"][0] += 200
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    ck.selftest_binding("TraceMoments", traces, corrupt, constants=dict(Tol=60))
