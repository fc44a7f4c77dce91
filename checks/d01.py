"""D01 debugger: Debugger.tla bound to the streaming debugger and its decorator."""
from oplib import distinct, record_ops, replay_ops
from vlib import tla

NO = -99


def step(s=1, v=0, t=NO, quit=False):
    return dict(op="step", s=s, v=v, t=t, quit=quit)


def add(base, cond, p=0, via="hook", act=None, max=None):
    act = act or {"hook": "capture", "state": "log", "break": "break", "perf": "alert"}[via]
    return dict(op="add", via=via, base=base, cond=cond, p=p, act=act, max=(max or 2) if via == "hook" else 1000)


def name(o, op, **k):
    return dict(op=op, via=o["via"], base=o["base"], **k)


OFF, ON, CLEAR, MUT, RAISE = dict(op="switch", to=False), dict(op="switch", to=True), dict(op="clear"), dict(op="mutate"), dict(op="raise")


def cfg(first, pool, track=True, perf=True, max=3):
    return dict(track=track, perf=perf, max=max, first=first, pool=pool)


def configs():
    ab, ev, ch, sl, fa = add("a", "above", 2), add("b", "every", 2, act="log"), add("c", "change", 1), add("d", "slow", 5, via="perf"), add("e", "fails")
    br, sc = add("f", "above", 0, via="break"), add("g", "change", 0, via="state")
    return [
        cfg([], [step(1, 3, 4), step(2, 1, 9), OFF, ON, CLEAR, MUT], max=2),
        cfg([ab, ev], [step(1, 5), step(2, NO), step(3, 2), CLEAR, name(ab, "hook", to=False), name(ab, "hook", to=True)], max=1),
        cfg([ch], [step(1), step(2), step(4), step(NO), CLEAR, name(ch, "hook", to=False)]),
        cfg([sl, ev], [step(1, t=9), step(2, t=3), step(3), OFF, ON, RAISE]),
        cfg([sl], [step(1, t=9), step(2, t=3), step(3), step(4, t=0)], perf=False),
        cfg([fa, br, ab], [step(1, 3, 0), step(2, 1, quit=True), step(3, 0, 2), step(5, 4, 3, quit=True), name(br, "remove"), MUT], track=False),
        cfg([ev], [add("b", "every", 1, max=3), add("b", "every", 3, via="break"), name(ev, "remove"), step(1, 1), step(2, 2), name(dict(via="break", base="b"), "hook", to=False)]),
        cfg([sc, add("n", "never"), ch], [step(1), step(2, t=1), step(0, t=2), name(sc, "remove"), OFF, ON], max=4),
    ]


def case(j):
    s = j["style"]
    return {k: s[k] for k in ("mode", "state", "input", "threads") if k in s}


def styles(rng, b, every=False):
    ops = [e["o"] for e in b["h"]] if "h" in b else b["ops"]
    change = any(o.get("cond") == "change" for o in ops)
    nos = any(o.get("s") == NO for o in ops)
    bad = any(o.get("v") == NO for o in ops)
    hooks = any(o["op"] == "add" for o in ops)
    forms = ["np", "jnp", "scalar", "frozen"] + ([] if change or nos else ["nested", "named", "bare", "flax"])
    out = [dict(mode=rng.choice(["direct", "fn"]), state=rng.choice(forms), input=rng.choice(["np", "dict"] if bad else ["float", "np", "dict"]), named=rng.random() < 0.5)]
    if not change and not nos and not bad and (every or rng.random() < 0.15):
        out.append(dict(mode="wax", state="wax", input="np", named=rng.random() < 0.5))
    return out


def run(ck):
    rng, th = ck.rng, ck.thorough
    r = ck.tlc("MCDebugger", dict(T=5 if th else 4, Configs="={" + ", ".join(tla(c) for c in configs()) + "}"), spec="Spec", invariants=["Bounded", "Names", "HitsKept"], properties=["Off"])
    behs = distinct(r.get("B"))
    n = 40000 if th else 4000
    behs = behs if len(behs) <= n else rng.sample(behs, n)
    replay_ops(ck, "debuglib:drive", behs, lambda b: styles(rng, b), case)

    items = []
    for i in range(240 if th else 60):
        c = dict(track=rng.random() < 0.85, perf=rng.random() < 0.85, max=rng.choice([1, 2, 5, 30]))
        kinds = ["above", "every", "slow", "fails", "never"] + (["change"] if i % 2 else [])
        ops, known = [], []
        for _ in range(rng.randint(8, 30)):
            k = rng.choice(["step"] * 9 + ["add", "add", "remove", "hook", "switch", "clear", "mutate", "raise"])
            if k == "step":
                ops.append(step(rng.randint(-5, 5) if rng.random() < 0.9 or not i % 2 else NO, rng.randint(-5, 5) if rng.random() < 0.9 or not i % 2 else NO,
                                rng.choice([NO, 0, 1, 3, 7, 20]), rng.random() < 0.2))
            elif k == "add":
                cond = rng.choice(kinds)
                via = "perf" if cond == "slow" else rng.choice(["hook", "hook", "state", "break"])
                o = add(rng.choice("abc"), cond, rng.randint(1, 4) if cond == "every" else rng.randint(0, 4), via, rng.choice(["log", "capture", "alert", "break"]) if via == "hook" else None, rng.choice([1, 3, 8]))
                known.append(o)
                ops.append(o)
            elif k in ("remove", "hook") and known:
                ops.append(name(rng.choice(known), k, **(dict(to=rng.random() < 0.6) if k == "hook" else {})))
            elif k == "switch":
                ops.append(dict(op="switch", to=rng.random() < 0.7))
            elif k in ("clear", "mutate", "raise"):
                ops.append(dict(op=k))
        for s in styles(rng, dict(ops=ops), every=i % 6 == 0):
            items.append(dict(cfg=c, ops=ops, style=s))

    def corrupt(t):
        for e in reversed(t["ev"]):
            if e["seen"] and e["y"]["total"] > 0:
                e["y"]["total"] += 1
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    record_ops(ck, "debuglib:drive", "TraceDebugger", items, case, corrupt)
    items = []
    for i in range(24 if th else 8):
        m = 4 * rng.randint(4, 10)
        ops = [add("a", "every", 2, act="capture", max=50), add("b", "above", 0, act="log", max=3)] + [step(k, rng.randint(-3, 3), rng.randint(0, 9)) for k in range(m)]
        items.append(dict(cfg=dict(track=True, perf=True, max=100), ops=ops, style=dict(mode="threads", threads=4)))
    record_ops(ck, "debuglib:concurrent", "TraceDebugger", items, case)
    ck.assumptions.append("concurrent steps are serialised in the order of the recorded history; operations other than steps are issued by one thread")
