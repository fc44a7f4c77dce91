"""M01 masked statistics: Masks.tla bound to the Haiku and Flax modules."""
import numpy as np
from modcheck import record, replay

Z = [0, 1]
NAN = [0, 0]


def degree(j):
    # the deviation has an absolute resolution
    return dict(apply=1, mean=1).get(j["cfg"]["kind"])


def run(ck):
    rng = ck.rng
    th = ck.thorough
    inv = ["MaskedOut", "Unmasked", "Positive", "UnitNorm"]
    shapes = ["={<<2,2,FALSE>>}", "={<<3,1,TRUE>>, <<1,3,FALSE>>, <<3,1,FALSE>>}"]
    if th:
        shapes += ["={<<4,1,TRUE>>}"]
    behs = []
    for s in shapes:
        behs += ck.tlc("MCMasks", dict(Shapes=s, Vals="={I(1), I(-2), NaN}", Nones="={NaN, Zero}"), spec="Spec", invariants=inv).get("B")
    behs += ck.tlc("MCMasks", dict(Shapes="={<<2,3,FALSE>>}", Vals="={I(1), NaN}" if not th else "={I(3), I(-1), NaN}", Nones="={NaN, Zero}"), spec="Spec", invariants=inv).get("B")

    def variants(cfg):
        out = []
        for lib in ("hk", "fx"):
            # with nothing selected the deviation is missing with Flax, zero with Haiku
            if cfg["kind"] == "std" and cfg["none"] != (Z if lib == "hk" else NAN):
                continue
            if cfg["kind"] == "norm" and cfg["none"] != (Z if lib == "hk" else NAN):
                continue
            out.append(dict(lib=lib, mod="mask", how="scan", layout="vmap", n=8000))
            out.append(dict(lib=lib, mod="mask_tree", how="scan", layout="vmap", n=300))
            if rng.random() < 0.3:
                out.append(dict(lib=lib, mod="mask", how="eager", layout="scalar", n=1))
        return out

    replay(ck, "masklib", behs, variants, clause="Value", degree=degree)
    scen = []
    nan = float("nan")
    for _ in range(160 if th else 48):
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        vec = rng.random() < 0.25
        m = 1 if vec else m
        kind = rng.choice(["apply", "mean", "std", "norm"])
        axis = rng.choice([-1, 0] if vec else [-1, 0, 1])
        lib = rng.choice(["hk", "fx"])
        ml = n * m
        if kind == "apply" and vec:
            axis = -1
        if kind == "apply" and axis >= 0:
            ml = n if axis == 0 else m
        cfg = dict(kind=kind, n=n, m=m, vector=vec, axis=axis, mlen=ml, centered=rng.random() < 0.5, fill=rng.choice([[0, 1], [5, 2], [-3, 1]]),
                   none=Z if lib == "hk" else NAN)
        T = 8
        pm = rng.choice([0.2, 0.5, 0.9])
        x = np.array([[[float(rng.random() < pm) for _ in range(ml)] + [nan if rng.random() < 0.2 else rng.randint(-5, 5) for _ in range(n * m)]
                       for _ in range(T)] for _ in range(2)])
        scen.append(dict(lib=lib, mod="mask", how="scan", layout="vmap", cfg=cfg, x=x))
    record(ck, "masklib", "TraceMasks", scen, den=20000, degree=degree)
    ck.assumptions.append("items are finite or missing")
