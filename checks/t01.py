"""T01 Flax streaming transforms: StreamScan.tla and StreamOpt.tla bound to streaming_transforms.py."""
import numpy as np
from modcheck import record, replay


def run(ck):
    rng = ck.rng
    th = ck.thorough
    r = ck.tlc("MCStreamScan", dict(T=5 if th else 4, Kinds='={"acc", "lag", "nest", "map"}', Vals="={I(1), I(-2)}"), spec="Spec", invariants=["FromHistory"])

    def variants(cfg):
        b = dict(lib="fx", layout="session", scalar_chans=[0], mod="sscan")
        if cfg["kind"] == "map":
            one_scan = lambda b: [h["x"][0][0] for h in b["h"]] == [1] + [2] * (len(b["h"]) - 1)  # noqa: E731
            return [dict(b, mod="scanmod", how="scan", sel=one_scan)]
        out = [dict(b, how="sscan", np=1000, rng=rng.random() < 0.5)]
        if not cfg["reset"]:
            out.append(dict(b, how="transform", np=1000 if th else 12, rng=rng.random() < 0.5))
        out.append(dict(b, how="deco", np=1000 if th else 5, rng=True))
        out.append(dict(b, how="eager", n=12 if th else 2, np=4))
        return out

    replay(ck, "sscanlib", r.get("B"), variants)
    r = ck.tlc("MCStreamOpt", dict(T=4 if th else 3), spec="Spec", invariants=["FromHistory"])

    def variants(cfg):
        b = dict(lib="fx", layout="session", mod="sopt")
        return [dict(b, how="scan", rng=True), dict(b, how="loop"), dict(b, how="eager", n=1)]

    replay(ck, "sscanlib", r.get("B"), variants, clause="OneStep")
    scen, opts = [], []
    for _ in range(120 if th else 40):
        T, N = rng.randint(5, 14), 3
        reset = rng.random() < 0.7
        auto = rng.random() < 0.3
        modes = []
        for t in range(T):
            m = rng.choice([0, 1, 2, 2, 2])
            if t == 0:
                m = 1 if auto or m == 2 else m
            elif m == 2 and modes[-1] == 0:
                m = 1
            modes.append(m)
        x = np.zeros((N, T, 3))
        x[:, :, 0] = modes
        x[:, :, 1] = [[rng.randint(-9, 9) for _ in range(T)] for _ in range(N)]
        x[:, :, 2] = [[float(m > 0 and reset and rng.random() < 0.3) for m in modes] for _ in range(N)]
        scen.append(dict(lib="fx", mod="sscan", layout="session", how=rng.choice(["sscan", "deco"]), rng=rng.random() < 0.5,
                         cfg=dict(kind=rng.choice(["acc", "lag", "nest"]), reset=reset, auto=auto, x0=[rng.randint(-3, 3), 1]), x=x))
        if rng.random() < 0.5:
            T = 4
            cfg = dict(kind=rng.choice(["id", "sum"]), one=rng.random() < 0.5, aux=rng.random() < 0.5, lr=rng.choice([[1, 4], [1, 2]]),
                       mu=rng.choice([[0, 1], [1, 2]]), x0=[[1, 1], [2, 1]])
            x = np.array([[[rng.choice([-1, 1, 0]), rng.randint(-3, 3)] for _ in range(T)] for _ in range(3)], dtype=float)
            opts.append(dict(lib="fx", mod="sopt", layout="session", how=rng.choice(["scan", "loop"]), cfg=cfg, x=x))
    record(ck, "sscanlib", "TraceStreamScan", scen)
    record(ck, "sscanlib", "TraceStreamOpt", opts, den=10**6)
