"""D04 data-flow tracker and dashboard: Dashboard.tla bound to the tracker, its drawings and the served dashboard."""
from oplib import distinct, record_ops, replay_ops
from vlib import tla

NO = -1


def val(t="int", v=0, dims=(), keys=(), items=()):
    return dict(t=t, v=v, dims=list(dims), keys=list(keys), items=list(items))


def rec(id="a", mod="m", type="output", x=None, ms=NO, mem=NO, op="rec"):
    return dict(op=op, id=id, mod=mod, type=type, val=x or val(), ms=ms, mem=mem)


def reg(id="a"):
    return dict(op="reg", id=id)


def step(id="a", raw=False):
    return dict(op="step", id=id, raw=raw)


def conn(on=True, c=1):
    return dict(op="connect", on=on, c=c)


def draw(how="text", max=200, id="a"):
    return dict(op="draw", id=id, how=how, max=max)


def burst(n, id="a", mod="m", type="output", x=None, ms=NO):
    return dict(op="burst", n=n, id=id, mod=mod, type=type, val=x or val(), ms=ms, mem=NO)


CLEAR, WAIT = dict(op="clear", id="a"), dict(op="wait", t=5)


def sub(id="a"):
    return dict(op="sub", id=id)


def cfg(first, pool, max=3, slow=5, big=50, alerts=True, web=True):
    return dict(max=max, slow=slow, big=big, alerts=alerts, web=web, first=first, pool=pool)


def configs():
    arr, mat, long = val("np", 3, [3]), val("jnp", 1, [3, 4]), val("list", 0, items=[val("int", i) for i in range(11)])
    tree = val("dict", keys=["p", "q"], items=[val("tuple", items=[val("jnp", 2, [2, 2]), val("str", 4)]), val("np", 0, [11])])
    return [
        cfg([], [reg(), reg("ab"), rec(ms=5), rec("ab", ms=6, mem=51), sub("ab"), conn()], max=2),
        cfg([reg()], [rec(x=arr), rec(mod="n", x=mat), step(), CLEAR, WAIT, rec("ab", x=tree)], max=2),
        cfg([reg(), conn()], [rec(x=tree, ms=7), rec(mod="n", type="input", mem=50), rec(op="raw", x=long), conn(False), conn(c=2), step(raw=True)], alerts=True),
        cfg([reg("ab"), reg("a")], [rec("ab", ms=9, mem=99), rec("a", mem=60), reg("a"), reg("ab"), CLEAR, step("ab")], web=False),
        cfg([reg(), conn()], [rec(ms=9), rec(mem=60), step("ab"), sub(), WAIT, rec(x=val("none"))], alerts=False),
        cfg([reg(), rec(x=val("float", 2)), WAIT, step()], [draw(), rec(x=mat), rec(mod="n", type="state", x=val("jnp", 4, [1])), CLEAR, burst(3, x=val("bool", 1))], max=30),
    ]


def tree(rng, d=0):
    k = rng.choice(["int", "float", "bool", "str", "none", "np", "jnp", "jnp"] + ([] if d > 1 else ["list", "tuple", "dict"]))
    v = rng.randint(0, 1 if k == "bool" else 40)
    if k in ("np", "jnp"):
        return val(k, v, rng.choice([[], [1], [3], [10], [11], [2, 5], [3, 4], [1, 2, 2], [0], [2, 1, 7]]))
    if k in ("list", "tuple"):
        return val(k, 0, items=[tree(rng, d + 1) for _ in range(rng.choice([0, 1, 2, 10, 11]))])
    if k == "dict":
        keys = rng.sample(["x", "y", "z"], rng.randint(0, 3))
        return val(k, 0, keys=keys, items=[tree(rng, d + 1) for _ in keys])
    return val(k, v)


def case(j):
    return dict(web=j["cfg"]["web"])


def run(ck):
    rng, th = ck.rng, ck.thorough
    r = ck.tlc("MCDashboard", dict(T=5 if th else 4, Configs="={" + ", ".join(tla(c) for c in configs()) + "}"), spec="Spec",
               invariants=["Bounded", "Unique", "Ordered", "Consistent", "Justified"], properties=["Isolated"])
    behs = distinct(r.get("B"))
    n = 20000 if th else 4000
    behs = behs if len(behs) <= n else rng.sample(behs, n)
    replay_ops(ck, "dashlib:drive", behs, lambda b: [dict(seed=rng.randrange(10**6))], case)
    items = []
    for n in range(160 if th else 48):
        c = dict(max=rng.choice([1, 4, 15, 30, 150]), slow=rng.choice([0, 5, 100]), big=rng.choice([0, 50]), alerts=rng.random() < 0.8, web=rng.random() < 0.8)
        ops, ids, plots = [reg(rng.choice(["a", "ab"]))], set(), 1 if n % 3 == 0 else 0
        ids.add(ops[0]["id"])
        for _ in range(rng.randint(8, 24)):
            known = rng.choice(sorted(ids))
            any_ = rng.choice(["a", "ab"])
            mod, ty = rng.choice("mn"), rng.choice(["input", "output", "state"])
            ms, mem = rng.choice([NO, NO, 0, 5, 6, 120]), rng.choice([NO, NO, 0, 50, 51])
            k = rng.choice(["rec"] * 8 + ["raw"] * 3 + ["step"] * 4 + ["connect"] * 2 + ["sub", "wait", "wait", "draw", "burst"] + [rng.choice(["reg", "clear"])])
            if k == "burst" and rng.random() < 0.5:
                k = "rec"
            o = {"rec": lambda: rec(any_, mod, ty, tree(rng), ms, mem), "raw": lambda: rec(known, mod, ty, tree(rng), ms, mem, op="raw"),
                 "step": lambda: step(known, rng.random() < 0.4), "connect": lambda: conn(rng.random() < 0.6, rng.randint(1, 2)), "sub": lambda: sub(any_),
                 "wait": lambda: dict(op="wait", t=rng.randint(1, 9)), "draw": lambda: draw(id=known), "reg": lambda: reg(any_), "clear": lambda: dict(op="clear", id=known),
                 "burst": lambda: burst(rng.choice([3, 12, 55, 110]), known, mod, ty, val("int", 1), rng.choice([NO, 6]))}[k]()
            if k == "reg":
                ids.add(any_)
            ops.append(o)
        if plots:
            ops.append(draw("anim" if n % 12 == 0 else "plot", rng.choice([2, 10, 200]), known))
        items.append(dict(cfg=c, ops=ops, style=dict(seed=rng.randrange(10**6))))

    def corrupt(t):
        for e in reversed(t["ev"]):
            if e["seen"] and e["y"]["pipes"] and e["y"]["pipes"][0]["data"]:
                e["y"]["pipes"][0]["data"][-1]["ts"] += 1
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    record_ops(ck, "dashlib:drive", "TraceDashboard", items, case, corrupt)
    ck.assumptions.append("flask and flask_socketio, which are not installed, are replaced by stand-ins that call the routes and handlers; the clock is given by the harness")
