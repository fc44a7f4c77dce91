"""W01 windows: Window.tla bound to Buffer, Lag, tree_lag and Diff (Haiku and Flax)."""
import numpy as np
from modcheck import record, replay

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume"], fx=["scan", "loop", "resume"])


def names(cfg):
    if cfg["kind"] in ("buffer", "state"):
        return ["buffer"]
    if cfg["kind"] == "diff":
        return ["diff"]
    return ["lag", "lag_state"] + (["tree_lag"] if cfg["fill"] == [0, 0] else [])


def degree(j):
    if j["mod"] == "tree_lag":
        return None
    return [1] * j["cfg"]["maxlen"] + [0] if j["cfg"]["kind"] == "state" else 1


def nonan(b):
    return all(s["x"][0][1] > 0 for s in b["h"])


def run(ck):
    rng = ck.rng
    r = ck.tlc("MCWindow", dict(Vals="={I(1), I(2), NaN}", MaxLen=5 if ck.thorough else 4, T=7 if ck.thorough else 6), spec="Spec",
               invariants=["LastMaxlen", "Length", "RingShows", "LagExact"])

    def variants(cfg):
        out = []
        for mod in names(cfg):
            for lib in ("hk", "fx"):
                hows = HOWS[lib] if ck.thorough else rng.sample(HOWS[lib], 2)
                for how in hows:
                    out.append(dict(lib=lib, mod=mod, how=how, layout="cols", n=300))
                out.append(dict(lib=lib, mod=mod, how=rng.choice(["scan", "loop"]), layout=rng.choice(["mat", "cube"]), n=40))
                out.append(dict(lib=lib, mod=mod, how="scan", layout="scalar", n=2))
                if cfg["fill"] != [0, 0] and cfg["kind"] != "diff":
                    out.append(dict(lib=lib, mod=mod, how="scan", layout="cols", dtype="int32", n=20, sel=nonan))
                elif rng.random() < 0.5:
                    out.append(dict(lib=lib, mod=mod, how="scan", layout="cols", dtype="float32", n=20))
        return out

    replay(ck, "winlib", r.get("B"), variants, clause="WindowOutput", degree=degree)
    scen = []
    for k in range(120 if ck.thorough else 32):
        long = k % 4 == 0  # many turns of a large window, or a huge window
        kind = rng.choice(["buffer", "state", "lag", "lag", "diff"])
        cfg = dict(kind=kind, maxlen=2 if kind == "diff" else rng.randint(1, 9), fill=[0, 0] if kind == "diff" or rng.random() < 0.5 else [rng.randint(-3, 3), 1])
        if long:
            cfg["kind"] = ["state", "buffer", "lag", "state"][k // 8 % 4]
            cfg["maxlen"] = [rng.randint(129, 280), rng.randint(20, 150)][k // 16 % 2] if k < 32 else rng.randint(1, 280)
        lib = ["hk", "fx"][k // 4 % 2] if long else rng.choice(["hk", "fx"])
        T, N = (rng.randint(270, 420), 1) if long else (rng.randint(5, 40), 2)
        x = np.array([[[rng.choice([float("nan"), float("inf"), -float("inf")]) if rng.random() < 0.15 else rng.randint(-999, 999) / 8]
                       for _ in range(T)] for _ in range(N)])
        scen.append(dict(lib=lib, mod=rng.choice(names(cfg)), how=rng.choice(HOWS[lib][:2] + ["resume"]), layout="cols", cfg=cfg, x=x))
    record(ck, "winlib", "TraceWindow", scen, degree=degree)
