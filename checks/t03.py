"""T03 composed state patterns: StatePatterns.tla bound to the state machines, composites and attention histories."""
import itertools

import numpy as np
from modcheck import record, replay
from vlib import tla

KEYS = ["s", "t", "u"]


def comp(keys="st", a=(1, 2, 3), bare=False, fail="never", deps=(), read="s"):
    ks = [{"i": "influence"}.get(k, k) for k in keys]
    return dict(keys=[] if bare else ks, a=[[v, 1] for v in a[: 1 if bare else len(ks)]], bare=bare, fail=fail, deps=list(deps), read=read)


def hsm(strat, *cs):
    return dict(kind="hsm", strat=strat, comps=list(cs))


def composite(strat, *cs, inkeys=()):
    return dict(kind="composite", strat=strat, comps=list(cs), inkeys=list(inkeys))


def attention(embed, length, chans, heads=1, top=2):
    return dict(kind="attention", strat="", comps=[], embed=embed, len=length, chans=chans, heads=heads, top=top)


def dags(n):
    """the acyclic dependency graphs on n components"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        deps = [[j + 1 for b, (i2, j) in zip(bits, pairs) if b and i2 == i] for i in range(n)]
        left = set(range(1, n + 1))
        while True:
            free = {i for i in left if not set(deps[i - 1]) & left}
            if not free:
                break
            left -= free
        if not left:
            yield deps


SHAPES = [("st", (1, 2)), ("s", (10,)), ("ts", (-1, 3)), ("u", (5,)), ("sut", (2, 1, -4))]


def graph(strat, deps, shift=0, bare=None):
    return hsm(strat, *[comp(*SHAPES[(i + shift) % len(SHAPES)], bare=bare == i, deps=d) for i, d in enumerate(deps)])


def configs(rng, th):
    out = []
    for i, d in enumerate(dags(3)):
        out.append(graph("hierarchical", d, i))
        if i % 3 == 0 or th:
            out.append(graph("sequential" if i % 2 else "parallel", d, i, bare=i % 4))
    four = list(dags(4))
    for d in (four if th else rng.sample(four, 12)):
        out.append(graph(rng.choice(["hierarchical", "hierarchical", "sequential", "parallel"]), d, rng.randint(0, 4), rng.choice([None, 0, 3])))
    f = ["never", "always", "neg"]
    for i in range(9):
        out.append(hsm(["sequential", "hierarchical", "parallel"][i % 3], comp("st", fail=f[i % 3]), comp("su", (3, 1), fail=f[i // 3], deps=[1]), comp("stu", deps=[1, 2] if i % 2 else [2])))
    # circular dependencies, and dependencies on absent components
    out += [hsm(s, comp(deps=[2]), comp("s", (7,), deps=[1]), comp(deps=[4])) for s in ("sequential", "parallel")]
    out += [hsm("sequential", comp(deps=[1])), hsm("hierarchical", comp()), hsm("parallel", comp(), comp(bare=True))]
    out += [
        composite("pipeline", comp(bare=True, a=(2,)), comp(bare=True, a=(-1,)), comp("st")),
        composite("pipeline", comp("st"), comp("tu", (3, -2), read="t"), comp("s", read="u"), inkeys=["u"]),
        composite("pipeline", comp("t", read="t"), comp("su", (1, -1), read="t"), comp(bare=True, read="s"), comp("s", (4,), read="x"), inkeys=["s", "t"]),
        composite("pipeline", *[comp("s", (1 + k % 2,)) for k in range(12)]) if th else composite("pipeline", *[comp("s", (1 + k % 2,)) for k in range(4)]),
        composite("parallel", comp("st"), comp(bare=True, a=(-3,), read="t"), comp("u", read="t"), inkeys=["s", "t"]),
        composite("parallel", comp(bare=True), comp("st")),
        composite("hierarchical", comp("si", (1, 3)), comp("t", (2,)), comp("iu", (-1, 1)), comp(bare=True)),
        composite("hierarchical", comp("s"), comp("i", (2,), read="t"), comp("s", (5,), read="t"), inkeys=["s", "t"]),
    ]
    out += [attention(1, 1, 1), attention(1, 2, 1), attention(1, 3, 1, top=5), attention(2, 3, 2), attention(2, 2, 1), attention(2, 3, 3, heads=2, top=3), attention(3, 4, 2), attention(2, 2, 4, heads=2)]
    return [c for i, c in enumerate(out) if c not in out[:i]]


def run(ck):
    rng, th = ck.rng, ck.thorough
    cfgs = configs(rng, th)
    r = ck.tlc("MCStatePatterns", dict(T=4 if th else 3, Inputs="={<<1,1>>, <<-3,2>>}" if th else "={<<3,1>>}", Configs="={" + ", ".join(tla(c) for c in cfgs) + "}"), spec="Spec",
               invariants=["ConfluentInv", "OrderOk", "OnceEach", "NeverStuck", "BoundedMem", "MemExact"])

    def variants(cfg):
        if cfg["kind"] == "attention":
            form = {1: rng.choice(["vector", "number", "dict"])}.get(cfg["chans"], rng.choice(["vector", "dict", "split", "numpy"]))
            return [dict(lib="fx", mod="attention", how="eager", layout="session", style=dict(form=form), n=6 if th else 3),
                    dict(lib="fx", mod="attention", how="eager", layout="session", style=dict(form=form, decorated=True), n=3 if th else 1, sel=lambda b: all(h["x"][-1] != [0, 1] for h in b["h"]))]
        out = [dict(lib="fx", mod="patterns", how="eager", layout="session", n=3 if th else 1)]
        if not any(c["fail"] == "neg" for c in cfg["comps"]):
            out += [dict(lib="fx", mod="patterns", how="vmap", layout="session", n=60)]
        if rng.random() < (1 if th else 0.25):
            out += [dict(lib="fx", mod="patterns", how="eager", layout="session", style=dict(decorated=True), n=1)]
        return out

    case = lambda j, c: dict(lib="fx", kind=j["cfg"]["kind"], strat=j["cfg"]["strat"], how=j["how"], decorated=bool(j["cfg"].get("decorated")))
    replay(ck, "patternlib", r.get("B"), variants, tol=1e-9, case_of=case)

    scen = []
    for i in range(90 if th else 24):
        T = rng.randint(3, 8)
        if i % 3 == 0:
            e, ch = rng.choice([1, 2, 4]), rng.randint(1, 3)
            cfg = dict(attention(e, rng.randint(1, 4), ch, heads=rng.choice([h for h in (1, 2) if e % h == 0]), top=rng.randint(1, 4)), form=rng.choice(["vector", "dict", "numpy"]))
            x = np.array([[[rng.randint(-4, 4) for _ in range(ch)] + [int(rng.random() < 0.8)] for _ in range(T)]], dtype=float)
            scen.append(dict(lib="fx", mod="attention", how="eager", layout="session", cfg=cfg, x=x))
            continue
        n = rng.randint(1, 6)
        perm = rng.sample(range(1, n + 1), n)
        circular = rng.random() < 0.15
        deps = [[d for d in range(1, n + 1) if d != c and (circular or perm.index(d) < perm.index(c)) and rng.random() < 0.4] for c in range(1, n + 1)]
        strat = rng.choice(["sequential", "parallel"]) if circular else rng.choice(["hierarchical", "sequential", "parallel"])
        if i % 3 == 1:
            ks = [["s", "t", "u"][k] for k in sorted(rng.sample(range(3), rng.randint(1, 3)))]
            cs = [dict(comp("".join(rng.sample("stu", rng.randint(1, 3))), [rng.randint(-4, 4) for _ in range(3)], bare=rng.random() < 0.15, deps=d), fail=rng.choice(["never", "never", "never", "neg", "always"])) for d in deps]
            cfg = hsm(strat, *cs)
            x = np.array([[[rng.randint(-6, 9)] for _ in range(T)]], dtype=float)
        else:
            ks = sorted(rng.sample(["s", "t", "u"], rng.choice([0, 1, 2])))
            cs = [comp("".join(rng.sample("stui", rng.randint(1, 3))), [rng.randint(-2, 2) for _ in range(3)], bare=rng.random() < 0.2, read=rng.choice(KEYS)) for _ in range(n)]
            cfg = composite(rng.choice(["pipeline", "parallel", "hierarchical"]), *cs, inkeys=ks)
            x = np.array([[[rng.randint(-3, 3) for _ in range(max(1, len(ks)))] for _ in range(T)]], dtype=float)
        scen.append(dict(lib="fx", mod="patterns", how="eager", layout="session", order=cfg["kind"] == "hsm", cfg=cfg, x=x))

    def tweak(j, ev, y):
        n = len(j["cfg"]["comps"]) if j.get("order") else 0
        for e, row in zip(ev, y):
            e["o"] = [int(v) for v in row[len(row) - n:]]
            e["y"] = e["y"][: len(e["y"]) - n]
        return ev

    record(ck, "patternlib", "TraceStatePatterns", scen, den=10 ** 6, tol=1e-9, tweak=tweak, case_of=case)
    ck.assumptions.append("components are accumulators that answer dictionaries of numbers or bare numbers; attention is made sharp by its parameters, so that it selects exactly")
