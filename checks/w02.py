"""W02 simple streaming modules: Simple.tla bound to the Haiku and Flax modules."""
import numpy as np
from modcheck import record, replay

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume"], fx=["scan", "loop", "resume"])


def degree(j):
    if j["mod"] in ("changed", "changed1") and j["cfg"]["missing"] != [0, 0]:
        return None
    return dict(roll=1, ffill=1, clean=1, pct=0, changed=0, changed1=0).get(j["mod"])


def run(ck):
    rng = ck.rng
    th = ck.thorough
    r = ck.tlc("MCSimple", dict(TR=6 if th else 5, TF=6 if th else 5, TP=5 if th else 4, TH=4 if th else 3, TC=6 if th else 4), spec="Spec",
               invariants=["FromHistory"])

    def variants(cfg):
        out = []
        k = cfg["kind"]
        if k == "changed":
            for lib in ("hk", "fx"):
                out.append(dict(lib=lib, mod="changed", how="scan", layout="vmap", n=700))
                out.append(dict(lib=lib, mod="changed", how=rng.choice(HOWS[lib]), layout="scalar", n=3))
                if cfg["missing"] == [0, 0]:
                    out.append(dict(lib=lib, mod="changed_far", how="scan", layout="vmap", n=200))
                    out.append(dict(lib=lib, mod="changed1", how="scan", layout="vmap", n=100, sel=lambda b: all(s["x"][0] == s["x"][1] for s in b["h"])))
            return out
        for lib in ("hk", "fx"):
            for how in (HOWS[lib] if th else rng.sample(HOWS[lib], 2)):
                out.append(dict(lib=lib, mod=k, how=how, layout="cols", n=1000))
            out.append(dict(lib=lib, mod=k, how=rng.choice(["scan", "loop"]), layout=rng.choice(["mat", "cube"]), n=60))
            out.append(dict(lib=lib, mod=k, how=rng.choice(["scan", "eager"]), layout="scalar", n=2))
            out.append(dict(lib=lib, mod=k, how="scan", layout="cols", dtype="float32", n=60))
            if k == "clean":
                out.append(dict(lib=lib, mod="clean_tree", how="scan", layout="cols", n=60))
        return out

    replay(ck, "simplelib", r.get("B"), variants, degree=degree)
    base = dict(kind="", horizon=1, minp=1, pad=True, zero=True, missing=[0, 0], fill=[0, 1])
    scen = []
    for k in range(160 if th else 36):
        long = k % 9 == 0
        kind = rng.choice(["roll", "roll", "ffill", "pct", "counter", "clean"])
        if k % 18 == 0:
            kind = ["counter", "roll"][k // 36 % 2]
        h = rng.choice([rng.randint(1, 12), rng.randint(40, 140)]) if long else rng.randint(1, 12)
        cfg = dict(base, kind=kind, horizon=h, minp=rng.randint(0, h), pad=rng.random() < 0.5, zero=rng.random() < 0.5, fill=[rng.randint(-5, 5), 1])
        lib = ["hk", "fx"][k // 18 % 2] if k % 18 == 0 else rng.choice(["hk", "fx"])
        T, N = (rng.randint(260, 320), 1) if long else (rng.randint(5, 40), 2)
        odd = [float("nan")] * 3 + ([float("inf"), -float("inf")] if kind != "pct" else [])
        pn = rng.choice([0.1, 0.5])
        x = np.array([[[rng.choice(odd) if rng.random() < pn else rng.randint(-60, 60) / 4]
                       for _ in range(T)] for _ in range(N)])
        scen.append(dict(lib=lib, mod=kind, how=rng.choice(HOWS[lib][:2] + ["resume"]), layout="cols", cfg=cfg, x=x))
    record(ck, "simplelib", "TraceSimple", scen, degree=degree)
