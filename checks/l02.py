"""L02 Newton optimiser: Newton.tla bound to wax.optim.newton."""
import numpy as np
from modcheck import record, replay

HOWS = ["scan", "loop", "wax", "resume", "eager"]


def run(ck):
    rng, th = ck.rng, ck.thorough
    lay = "={<<1>>, <<2>>, <<3>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>, <<2, 2>>, <<3, 1>>, <<4>>}"
    r = ck.tlc("MCNewton", dict(T=5 if th else 4, Layouts=lay), spec="Spec", invariants=["Symmetric", "Regular", "Solves", "Bounded", "Less"])

    def style(cfg):
        return dict(salt=rng.randint(0, 5), nest=rng.choice(["one", "map", "list", "tuple"]), via=rng.choice(["module", "params", "none"]))

    def variants(cfg):
        out = [dict(lib="hk", mod="newton", how="scan", layout="vmap", n=243, style=style(cfg)) for _ in range(2)]
        out.append(dict(lib="hk", mod="newton", how=rng.choice(HOWS), layout="scalar", n=2, style=style(cfg)))
        if rng.random() < 0.3:
            out.append(dict(lib="hk", mod="newton", how="scan", layout="vmap", n=20, dtype="float32", tol32=1e-3, style=style(cfg)))
        return out

    replay(ck, "newtonlib", r.get("B"), variants, tol=1e-8)
    scen = []
    for _ in range(200 if th else 40):
        sizes = rng.choice([[1], [2], [3], [4], [4], [4, 1], [1, 2], [2, 1, 2], [3, 3], [1, 1, 1, 1], [2, 3]])
        cfg = dict(sizes=sizes, eps=[rng.randint(1, 3), 1], lr=[1, rng.choice([1, 2])], sched=rng.random() < 0.4, raw=False)
        cfg.update(style(cfg))
        T, N = rng.randint(2, 6), rng.choice([1, 2])
        if 4 in sizes:
            T, hi = min(T, 4), 1
        else:
            hi = 2
        x = np.array([[[rng.randint(-1, hi) for _ in range(sum(sizes))] for _ in range(T)] for _ in range(N)], dtype=float)
        scen.append(dict(lib="hk", mod="newton", how=rng.choice(HOWS), layout="scalar", cfg=cfg, x=x))
    record(ck, "newtonlib", "TraceNewton", scen, tol=1e-8)
    ck.assumptions.append("leaves of at most 4 entries in the exhaustive part and in the traces; finite gradients")
