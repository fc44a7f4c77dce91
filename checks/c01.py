"""C01 conditional computation: Conditional.tla bound to UpdateOnEvent and ConditionalComputation."""
import numpy as np
from modcheck import record, replay

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume", "eager"], fx=["scan", "loop", "resume", "eager"])
KINDS = '={"count", "lag", "sum", "ewma", "nest", "pair", "cond"}'
DT = ["bool", "float64", "bool"]


def degree(j):
    k = j["cfg"]["kind"]
    if k == "pair" and j["cfg"]["init"][1] == 0:
        return [0, 1]
    return 1 if k in ("lag", "sum", "ewma", "nest") else None


def run(ck):
    rng = ck.rng
    th = ck.thorough
    r = ck.tlc("MCConditional", dict(T=6 if th else 5, TC=6 if th else 5, Kinds=KINDS, Inits="={NaN, I(50)}", Vals="={I(1), I(-4)}"), spec="Spec",
               invariants=["FromHistory"], properties=["Hold"])

    def variants(cfg):
        lib = "hk" if cfg["frozen"] else "fx"
        b = dict(lib=lib, mod="cond", dtype=DT)
        out = [dict(b, how="scan", layout="vmap"), dict(b, how="scan", layout="vmap", dtype=["bool", "float32", "bool"], n=300)]
        for how in (HOWS[lib] if th else rng.sample(HOWS[lib][:-1], 3)):
            # the events are shared by the items of an array
            out.append(dict(b, how=how, layout=rng.choice(["cols", "mat"]), scalar_chans=[0, 2], np=12 if th else 5))
        out.append(dict(b, how=rng.choice(["scan", "eager"]), layout="scalar", n=2))
        if lib == "fx":
            out.append(dict(b, mod="cond_deco", how="scan", layout="vmap", n=300))
        elif cfg["kind"] == "count" and cfg["init"][1]:
            out.append(dict(b, mod="counter_direct", how=rng.choice(HOWS[lib]), layout="scalar", n=8))
        return out

    replay(ck, "condlib", r.get("B"), variants, degree=degree)
    scen = []
    for k in range(120 if th else 40):
        kind = rng.choice(["count", "lag", "sum", "ewma", "nest", "pair", "cond"])
        frozen = rng.random() < 0.5
        lib = "hk" if frozen else "fx"
        avg = kind in ("ewma", "nest")
        T, N = (rng.randint(3, 12) if avg else rng.randint(260, 320) if k % 8 == 0 else rng.randint(5, 40)), 2
        pe, p2 = rng.choice([0.1, 0.5, 0.9]), rng.choice([0.2, 0.7])
        x = np.zeros((N, T, 3))
        x[:, :, 0] = [float(rng.random() < pe) for _ in range(T)]
        x[:, :, 2] = [float(rng.random() < p2) for _ in range(T)]
        x[:, :, 1] = [[rng.randint(-9, 9) for _ in range(T)] for _ in range(N)]
        scen.append(dict(lib=lib, mod="cond", how=rng.choice(HOWS[lib]), layout="cols", scalar_chans=[0, 2], dtype=DT,
                         cfg=dict(kind=kind, frozen=frozen, init=rng.choice([[0, 0], [7, 1]])), x=x))
    record(ck, "condlib", "TraceConditional", scen, den=4096, degree=degree)
