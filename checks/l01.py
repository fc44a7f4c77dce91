"""L01 online learning: OnlineOpt.tla bound to the Haiku and Flax optimisers, learners and parameter updates."""
import numpy as np
from modcheck import record, replay

HOWS = dict(hk=["scan", "loop", "wax", "wax_static", "resume"], fx=["scan", "loop", "resume"])
APIS = {"hkonline": "params", "hkfunc": "trainable", "hklearner": "params", "fxonline": "both", "fxfunc": "grads", "fxlearner": "grads", "given": "initial"}


def style(rng, cfg, trace=False):
    full = all(cfg["train"])
    names = rng.choice(["distinct", "same"]) if full or cfg["api"] not in ("fxfunc", "fxlearner") else "distinct"
    # (a Flax model's auxiliary outputs come in several shapes)
    model = "flax" if not cfg["st"] or cfg["c0"] else "haiku"
    if cfg["api"] == "fxonline" and not cfg["st"]:
        model = rng.choice(["flax", "haiku"])
    # the Flax function optimiser gives its predicate only the names of the parameters
    bare = rng.random() < 0.5 or (names == "same" and cfg["api"] in ("fxfunc", "fxlearner"))
    return dict(names=names, bare=bare, deep=rng.random() < 0.5, pure=rng.random() < 0.5, wrapped=rng.random() < 0.5, model=model,
                shape=rng.choice(["pair", "triple"] if trace else ["pair", "pair", "triple", "loss"]))


def lib_of(api):
    return "fx" if api.startswith("fx") else "hk"


def run(ck):
    rng, th = ck.rng, ck.thorough
    r = ck.tlc("MCOnlineOpt", dict(T=3, Dev=3 if th else 2), spec="Spec", invariants=["Frozen", "Clipped", "Counted", "Filled", "Telescopes", "Earlier"])

    def variants(cfg):
        lib = lib_of(cfg["api"])
        base = dict(lib=lib, mod=cfg["api"])
        out = [dict(base, how="scan", layout="vmap", n=64, style=style(rng, cfg))]
        if th:
            out.append(dict(base, how="scan", layout="vmap", n=64, style=style(rng, cfg)))
        if th or rng.random() < 0.25:
            out.append(dict(base, how=rng.choice(HOWS[lib]), layout="scalar", n=3, style=style(rng, cfg)))
        return out

    replay(ck, "optlib", r.get("B"), variants)
    scen = []
    for _ in range(300 if th else 56):
        api = rng.choice(sorted(APIS))
        one = lambda v, p: v if rng.random() < p else 0  # noqa: E731
        online = api in ("hkonline", "fxonline")
        opt = "sgd" if api == "given" else rng.choice(["sgd", "mom", "sched", "decay"])
        clip = rng.choice([2, 3, 4]) if online else 0
        T = rng.randint(4, 12) if clip else rng.randint(2, 4)
        st = rng.random() < 0.4
        loss = rng.choice(["quad", "lin"])
        if loss == "lin" and not clip:
            T = rng.randint(4, 12)
        nan = rng.choice(["zero", "keep"]) if api in ("hkfunc", "hklearner", "given") else "zero"
        cfg = dict(api=api, seen=APIS[api], loss=loss, train=[True] * 3 if api == "hklearner" else [rng.random() < 0.7 for _ in range(3)], opt=opt,
                   lr=[1, 1], d=[rng.choice([1, -1]), 1], rho=[one(1, 0.4) if online else 0, 1], clip=[clip, 1], st=st, nan=nan,
                   p0=[[rng.randint(-2, 2), 1] for _ in range(3)], regall=api == "fxonline",
                   c0=1 if st and (api in ("fxfunc", "fxlearner") or (api == "fxonline" and rng.random() < 0.5)) else 0)
        cfg.update(style(rng, cfg, True))
        big = 3 if clip or loss == "lin" else 2
        N = rng.choice([1, 2])
        x = np.array([[[rng.randint(-big, big) for _ in range(7)] for _ in range(T)] for _ in range(N)], dtype=float)
        if rng.random() < 0.5:
            for k in range(N):
                for t in range(T):
                    if rng.random() < 0.2:
                        x[k, t, rng.randint(0, 2 if loss == "lin" else 3)] = np.nan
        lib = lib_of(api)
        scen.append(dict(lib=lib, mod=api, how=rng.choice(HOWS[lib]), layout="scalar", cfg=cfg, x=x))
    record(ck, "optlib", "TraceOnlineOpt", scen)
    ck.assumptions.append("models linear in three parameters with an evaluation counter; small integer data, so that floats are exact")
