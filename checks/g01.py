"""G01 gym feedback: GymFeedback.tla bound to the Haiku and Flax modules."""
import numpy as np
from modcheck import record, replay

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume"], fx=["scan", "loop", "resume"])


def run(ck):
    rng = ck.rng
    th = ck.thorough
    r = ck.tlc("MCGymFeedback", dict(T=6 if th else 5), spec="Spec", invariants=["FromHistory"], properties=["Delay"])

    def variants(cfg):
        hk = cfg["kind"] == "hk"
        lib, mod = ("hk", "gym") if hk else ("fx", "gymfx")
        out = [dict(lib=lib, mod=mod, how="scan", layout="vmap", n=2000)]
        for how in HOWS[lib]:
            out.append(dict(lib=lib, mod=mod, how=how, layout="cols", n=1500))
        out.append(dict(lib=lib, mod=mod, how="loop", layout=rng.choice(["mat", "cube"]), n=100))
        out.append(dict(lib=lib, mod=mod, how=rng.choice(["scan", "eager"]), layout="scalar", n=2))
        out.append(dict(lib=lib, mod=mod, how="scan", layout="cols", dtype="float32", n=100))
        if hk:
            out.append(dict(lib=lib, mod="gym_fn", how=rng.choice(HOWS["hk"]), layout="cols", n=1000))
        return out

    replay(ck, "gymlib", r.get("B"), variants, degree=lambda j: 1)
    scen = []
    for _ in range(120 if th else 40):
        kind = rng.choice(["hk", "hk", "fx", "fxloop"])
        lib = "hk" if kind == "hk" else "fx"
        cfg = dict(kind=kind, init=rng.choice([[0, 0], [rng.randint(-5, 5), 1]]) if kind == "hk" else [0, 0],
                   obs=kind == "hk" and rng.random() < 0.5, act=kind == "hk" and rng.random() < 0.5, reward=kind != "hk" and rng.random() < 0.6)
        T, N = rng.randint(3, 12), rng.choice([1, 3])
        x = np.array([[[rng.randint(-9, 9), rng.randint(-9, 9) if cfg["reward"] else 0] for _ in range(T)] for _ in range(N)], dtype=float)
        mod = rng.choice(["gym", "gym_fn"]) if kind == "hk" else "gymfx"
        scen.append(dict(lib=lib, mod=mod, how=rng.choice(HOWS[lib]), layout="cols", cfg=cfg, x=x))
    record(ck, "gymlib", "TraceGymFeedback", scen, degree=lambda j: 1)
