"""A01 ARMA and SNARIMAX: Arma.tla bound to the Haiku and Flax modules."""
import numpy as np
from modcheck import record, replay

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume"], fx=["scan", "loop", "resume"])


def run(ck):
    rng = ck.rng
    th = ck.thorough
    r = ck.tlc("MCArma", dict(TA=5 if th else 4, TS=5 if th else 4), spec="Spec", invariants=["FromHistory"])

    def variants(cfg):
        if cfg["kind"] == "arma":
            out = []
            for lib in ("hk", "fx"):
                out.append(dict(lib=lib, mod="arma", how="scan", layout="vmap"))
                for how in (HOWS[lib] if th else rng.sample(HOWS[lib], 2)):
                    out.append(dict(lib=lib, mod="arma", how=how, layout="cols"))
                if lib == "fx":
                    out.append(dict(lib=lib, mod="arma", how="scan", layout="mat", n=50))
                out.append(dict(lib=lib, mod="arma", how=rng.choice(["scan", "eager"]), layout="scalar", n=1))
            return out
        lib = "hk" if cfg["kind"] == "snar" else "fx"
        return [dict(lib=lib, mod=cfg["kind"], how="scan", layout="vmap"),
                dict(lib=lib, mod=cfg["kind"], how=rng.choice(HOWS[lib] + ["eager"]), layout="scalar", n=1)]

    replay(ck, "armalib", r.get("B"), variants, degree=lambda j: 1)
    scen = []
    nan = float("nan")
    coef = [[1, 1], [-1, 1], [2, 1], [0, 1], [-3, 1]]
    for _ in range(120 if th else 40):
        kind = rng.choice(["arma", "arma", "snar", "snarfx"])
        p, q, nx = rng.randint(1, 4), rng.randint(0, 3), rng.randint(0, 2)
        lib = dict(snar="hk", snarfx="fx").get(kind) or rng.choice(["hk", "fx"])
        if kind == "arma":
            q = max(q, 1)
        cfg = dict(kind=kind, p=p, q=q, nx=nx if kind == "snar" else 0, alpha=[], beta=[], w=[])
        if kind == "arma":
            cfg.update(alpha=[rng.choice([[1, 2], [-1, 2], [1, 1], [-1, 1], [0, 1]]) for _ in range(p)], beta=[rng.choice(coef) for _ in range(q)])
            C = 1
        else:
            n = p + q + (1 if kind == "snarfx" else cfg["nx"])
            cfg.update(w=[rng.choice(coef[:4] if kind == "snar" else coef) for _ in range(n)])
            C = 2 if kind == "snarfx" else 1 + cfg["nx"]
        T, N = 8 if kind == "arma" else 7 if kind == "snar" else 15, 2
        x = np.array([[[nan if rng.random() < 0.1 else rng.randint(-9, 9) for _ in range(C)] for _ in range(T)] for _ in range(N)], dtype=float)
        scen.append(dict(lib=lib, mod=kind, how=rng.choice(HOWS[lib][:2] + ["resume"]), layout="cols" if kind == "arma" else "scalar", cfg=cfg, x=x))
    record(ck, "armalib", "TraceArma", scen, degree=lambda j: 1)
