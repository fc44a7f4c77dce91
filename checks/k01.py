"""K01 OHLC: Ohlc.tla bound to the Haiku and Flax modules."""
import numpy as np
from modcheck import record, replay

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume"], fx=["scan", "loop", "resume"])


def run(ck):
    rng = ck.rng
    th = ck.thorough
    vals = "={I(1), I(2), I(-3), NaN}"
    r = ck.tlc("MCOhlc", dict(T=5 if th else 4, Vals=vals), spec="Spec", invariants=["FromHistory", "Ordered"])
    r2 = ck.tlc("MCOhlc", dict(T=7 if th else 5, Vals="={I(1), Q(3,2), NaN}"), spec="Spec", invariants=["FromHistory", "Ordered"])

    def variants(cfg):
        out = []
        for lib in ("hk", "fx"):
            out.append(dict(lib=lib, mod="ohlc", how="scan", layout="vmap", dtype=["float64", "bool"]))
            out.append(dict(lib=lib, mod="ohlc", how="scan", layout="vmap", dtype=["float32", "bool"], n=400))
            for how in HOWS[lib]:
                # the reset flag is shared by the items of an array
                out.append(dict(lib=lib, mod="ohlc", how=how, layout="cols", dtype=["float64", "bool"], scalar_chans=[1], np=16 if th else 5))
            out.append(dict(lib=lib, mod="ohlc", how="loop", layout=rng.choice(["mat", "cube"]), dtype=["float64", "bool"], scalar_chans=[1], np=4))
            out.append(dict(lib=lib, mod="ohlc", how=rng.choice(["scan", "eager"]), layout="scalar", dtype=["float64", "bool"], n=4))
        return out

    replay(ck, "ohlclib", r.get("B") + r2.get("B"), variants, degree=lambda j: 1)
    scen = []
    nan = float("nan")
    for k in range(120 if th else 40):
        lib = rng.choice(["hk", "fx"])
        T, N = (rng.randint(260, 400), 1) if k % 10 == 0 else (rng.randint(5, 60), rng.choice([1, 3]))
        pn, pr = rng.choice([0.1, 0.5]), rng.choice([0, 0.1, 0.4])
        odd = [nan, nan, nan, float("inf"), -float("inf")]
        x = np.array([[[rng.choice(odd) if rng.random() < pn else rng.randint(-40, 40) / 4, 0.0] for _ in range(T)] for _ in range(N)])
        x[:, :, 1] = [float(rng.random() < pr) for _ in range(T)]
        scen.append(dict(lib=lib, mod="ohlc", how=rng.choice(HOWS[lib]), layout="cols", scalar_chans=[1], dtype=["float64", "bool"],
                         cfg=dict(kind="ohlc"), x=x))
    record(ck, "ohlclib", "TraceOhlc", scen, degree=lambda j: 1)
