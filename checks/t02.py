"""T02 compressed buffers: CompressedBuffer.tla bound to the Flax compressed and hierarchical buffers."""
import numpy as np
from modcheck import record, replay
from vlib import tla

Z, ONE = [0, 1], [1, 1]
QS = [[1, 10], [1, 4], [1, 2], [3, 4], [9, 10]]


def level(m, length, fill=Z, every=1, alpha=(1, 10), qs=(), factor=2, rows=4, buckets=1024):
    return dict(m=m, len=length, fill=list(fill), every=every, alpha=list(alpha), qs=[list(q) for q in qs], factor=factor, rows=rows, buckets=buckets)


def hier(recent, medium, ml, long, ll, fill=Z):
    d = dict(fill=fill)
    return dict(hier=True, levels=[level("none", recent, **d), level(medium, ml, every=5, qs=QS if medium == "quantile" else (), **d),
                                   level(long, ll, every=50, alpha=[1, 100], qs=QS if long == "quantile" else (), **d)])


def flat(m, length, **k):
    return dict(hier=False, levels=[level(m, length, **k)])


NAN = [0, 0]
CONFIGS = [
    flat("none", 1), flat("none", 3), flat("none", 4, fill=NAN),
    flat("downsample", 6), flat("downsample", 3, factor=2, fill=NAN), flat("downsample", 5, factor=3), flat("downsample", 2, factor=5), flat("downsample", 4, factor=1),
    flat("quantile", 3, qs=[[1, 4], [1, 2], [3, 4]]), flat("quantile", 4, qs=QS, fill=NAN), flat("quantile", 6, qs=[[1, 2], Z, ONE], fill=NAN),
    flat("ewma", 5, alpha=[1, 2]), flat("ewma", 5, alpha=[1, 4]),
    flat("sketching", 5, rows=2, buckets=8), flat("sketching", 5, rows=4, buckets=3), flat("sketching", 5, rows=1, buckets=16),
    hier(2, "none", 3, "downsample", 4), hier(3, "quantile", 3, "none", 2), hier(1, "downsample", 4, "quantile", 3, fill=NAN), hier(2, "ewma", 4, "ewma", 4),
    hier(2, "ewma", 4, "quantile", 5),
]
JITTABLE = ("none", "ewma", "sketching")


def key(cfg):
    return "/".join(l["m"] for l in cfg["levels"])


def run(ck):
    rng, th = ck.rng, ck.thorough
    r = ck.tlc("MCCompressedBuffer", dict(T=13 if th else 12, Gap=2 if th else 3, Configs="={" + ", ".join(tla(c) for c in CONFIGS) + "}"), spec="Spec",
               invariants=["BoundedOut", "FedOften", "Ordered", "SketchTotal", "NoMiss"])

    def variants(cfg):
        ms = [l["m"] for l in cfg["levels"]]
        jit = not cfg["hier"] and ms[0] in JITTABLE
        out = [dict(lib="fx", mod="compress", how="eager", layout="scalar", n=20 if th else 4)]
        if jit:
            out.append(dict(lib="fx", mod="compress", how="scan", layout="vmap", n=200))
            out.append(dict(lib="fx", mod="compress", how=rng.choice(["loop", "resume"]), layout="scalar", n=2))
        if all(m in ("none", "ewma", "downsample") for m in ms):
            out.append(dict(lib="fx", mod="compress", how="eager", layout=rng.choice(["cols", "mat"]), n=30))
        if cfg["levels"][0]["fill"] == Z and (not cfg["hier"] or all(l["fill"] == Z for l in cfg["levels"])):
            out.append(dict(lib="fx", mod="decorated", how="eager", layout="session", n=3 if th else 1))
        return out

    replay(ck, "compresslib", r.get("B"), variants, tol=1e-5, case_of=lambda j, c: dict(lib="fx", mod=j["mod"], how=j["how"], layout=j["layout"], kind=key(j["cfg"])))
    scen = []
    for i in range(160 if th else 32):
        h = i % 4 == 0
        fill = rng.choice([Z, Z, NAN])
        if h:
            med, lon = rng.choice(["none", "downsample", "quantile", "ewma"]), rng.choice(["none", "downsample", "quantile", "ewma"])
            T = 15 if "ewma" in (med, lon) and i != 8 else rng.randint(315, 330) if i == 8 else 53 if i % 8 == 0 else 18
            if i == 8:
                med, lon = rng.sample(["none", "downsample"], 2)
            cfg = hier(rng.randint(1, 4), med, rng.randint(2, 5), lon, rng.randint(2, 5), fill)
            x = [rng.randint(-3, 3) for _ in range(T)]
        else:
            m = rng.choice(["none", "downsample", "downsample", "quantile", "quantile", "sketching", "ewma"])
            T = 7 if m == "ewma" else rng.randint(5, 34 if m == "quantile" else 20)
            cfg = flat(m, rng.randint(1, 12), fill=fill, alpha=[1, 2], qs=rng.sample([[k, 8] for k in range(9)], rng.randint(1, 4)) if m == "quantile" else (),
                       factor=rng.randint(1, 4), rows=rng.randint(1, 4), buckets=rng.randint(1, 20))
            x = [rng.randint(-9, 9) for _ in range(T)]
            if i % 8 in (1, 3):  # more steps than a byte counts
                m = ["quantile", "downsample"][i // 2 % 2]
                cfg = flat(m, rng.randint(3, 12), fill=fill, qs=[[1, 4], [1, 2]] if m == "quantile" else (), factor=rng.choice([3, 5, 7]))
                x = [rng.randint(-9, 9) for _ in range(rng.randint(265, 290))]
            if m in ("none", "downsample", "quantile"):
                x = [np.nan if rng.random() < 0.1 else v for v in x]
        for l in cfg["levels"]:
            l["qs"] = [tla_q(q) for q in l["qs"]]
        scen.append(dict(lib="fx", mod="compress", how="eager", layout="scalar", cfg=cfg, x=np.array([[[v] for v in x]], dtype=float)))
    record(ck, "compresslib", "TraceCompressedBuffer", scen, den=2000, tol=1e-6, case_of=lambda j, c: dict(lib="fx", mod=j["mod"], how=j["how"], layout=j["layout"], kind=key(j["cfg"])))
    ck.assumptions.append("missing values only in the levels that keep items; downsampled and quantile buffers only run outside jit")


def tla_q(q):
    from math import gcd

    g = gcd(q[0], q[1]) or 1
    return [q[0] // g, q[1] // g]
