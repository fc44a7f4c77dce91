"""D02 profiler: Profiler.tla bound to the streaming profiler, its measured blocks and its decorator."""
from oplib import distinct, record_ops, replay_ops, run_ops
from vlib import tla

BIG = 1048576


def rec(mod="a", t=1, rss=10, jit=False, inn=0, out=0):
    return dict(op="record", mod=mod, t=t, rss=rss, jit=jit, inn=inn, out=out)


def block(mod="a", t=1, rss=10, jit=False, mid="", exc=False):
    return dict(op="block", mod=mod, t=t, rss=rss, jit=jit, mid=mid, exc=exc)


def nest(mod="a", mod2="b", t=1, t2=2, rss=10, rss2=20, jit=False):
    return dict(op="nest", mod=mod, mod2=mod2, t=t, t2=t2, rss=rss, rss2=rss2, jit=jit)


def call(mod="m", t=1, rss=10, inn=8, out=24, det=True, exc=False):
    return dict(op="call", mod=mod, t=t, rss=rss, inn=inn, out=out, det=det, exc=exc)


OFF, ON, RESET, WAIT = dict(op="switch", to=False), dict(op="switch", to=True), dict(op="reset"), dict(op="wait", t=5)


def cfg(first, pool, max=3, thr=3, leak=50, mem=True):
    return dict(max=max, thr=thr, leak=leak, mem=mem, first=first, pool=pool)


def configs(th):
    return [
        cfg([], [rec("a", 1, 10), rec("b", 6, 30, inn=8, out=5), rec("a", 4, 5, True), OFF, ON, RESET], max=2),
        cfg([], [rec("a", 2, 7), WAIT, RESET, block("a", 4, 9, mid="reset"), block("b", 3, 12, True), rec("b", 0, 0)], max=4),
        cfg([], [block("a", 2, mid="off"), block("b", 5, mid="on", exc=True), block("a", 4, 40, exc=True), nest("a", "b", 3, 1, 70, 20, True), call(t=2)], thr=2),
        cfg([], [call("m", 2, 20), call("a", 9, 10, BIG + 8, 0), call("a", 4, 30, det=False), call("m", 5, 15, exc=True), ON, OFF], max=5),
        cfg([], [rec("a", 1, 90), rec("a", 3, 20), rec("a", 0, 0), rec("b", 12, 150), call("a", 2, 40)], mem=False),
        cfg([], [rec("a", 128, 10), rec("a", 127, 10), call("m", 129, 10), block("b", 128, 20)], thr=128, leak=10),
        cfg([rec("a", 1, 60 + i) for i in range(8)], [rec("a", 1, 110), rec("b", 7, 111, True), rec("a", 3, 50), rec("b", 4, 90, inn=BIG)], max=20),
        cfg([rec("a", 1 + i % 2, 10, i == 4) for i in range(9)], [rec("a", 5, 60, True), nest("b", "b", 4, 1, 70, 10), RESET, rec("b", 1, 61)], max=10),
        cfg([rec("a", 2, 40, inn=BIG + 1), rec("b", 2, 50, inn=BIG)], [rec("a", 2, 90, inn=BIG + 1), rec("b", 7, 140, inn=BIG), rec("b", 3, 140, True, inn=9), rec("m", 2, 41)], max=4),
    ]


def case(j):
    s = j["style"]
    return {k: s[k] for k in ("cpu", "threads", "tools") if k in s}


def run(ck):
    rng, th = ck.rng, ck.thorough
    r = ck.tlc("MCProfiler", dict(T=5 if th else 4, Configs="={" + ", ".join(tla(c) for c in configs(th)) + "}"), spec="Spec", invariants=["Bounded", "InOrder", "Deltas", "Parts", "Between"], properties=["Off"])
    behs = distinct(r.get("B"))
    for b in behs:  # 2: rounding decides, anything may be answered
        for e in b["h"]:
            a = e["y"]["advice"]
            a["time"] = "?" if a["time"] == 2 else a["time"]
            a["mods"] = ["?" if f == 2 else f for f in a["mods"]]
    n = 40000 if th else 6000
    behs = behs if len(behs) <= n else rng.sample(behs, n)
    replay_ops(ck, "proflib:drive", behs, lambda b: [dict(seed=rng.randrange(10**6), cpu=rng.random() < 0.5)], case)

    items = []
    for _ in range(200 if th else 50):
        c = dict(max=rng.choice([1, 3, 8, 12, 40]), thr=rng.randint(0, 12), leak=rng.choice([0, 20, 50]), mem=rng.random() < 0.85)
        ops, hi = [], rng.choice([3, 20, 60])
        grow = rng.random() < 0.5
        for i in range(rng.randint(10, 32)):
            k = rng.choice(["record"] * 6 + ["block"] * 3 + ["call"] * 4 + ["nest", "switch", "reset" if rng.random() < 0.4 else "wait"])
            t, m, g = rng.randint(0, hi), rng.choice("abm"), (8 * i if grow else 0) + rng.randint(0, 40)
            inn = rng.choice([0, 8, 8, 21, 100, BIG, BIG + 1, BIG + 24])
            ops.append({"record": lambda: rec(m, t, g, rng.random() < 0.15, inn, rng.choice([0, 8, 33])), "block": lambda: block(m, t, g, rng.random() < 0.2, rng.choice(["", "", "", "on", "off"] + ["reset"] * (i % 3 == 0)), rng.random() < 0.3),
                        "call": lambda: call(m, t, g, inn, rng.choice([0, 8, 40]), rng.random() < 0.7, rng.random() < 0.2), "nest": lambda: nest(m, rng.choice("abm"), t, rng.randint(0, 5), g, g + rng.randint(-9, 9), rng.random() < 0.3),
                        "switch": lambda: dict(op="switch", to=rng.random() < 0.75), "reset": lambda: RESET, "wait": lambda: dict(op="wait", t=t)}[k]())
            ops[-1].update({q: max(0, ops[-1][q]) for q in ("rss2",) if q in ops[-1]})
        items.append(dict(cfg=c, ops=ops, style=dict(seed=rng.randrange(10**6), cpu=rng.random() < 0.5)))

    def corrupt(t):
        for e in reversed(t["ev"]):
            if e["seen"] and e["y"]["metrics"]:
                e["y"]["metrics"][-1]["delta"] += 1
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    record_ops(ck, "proflib:drive", "TraceProfiler", items, case, corrupt)
    items = []
    for i in range(24 if th else 8):
        m = 4 * rng.randint(4, 9)
        ops = [rec(rng.choice("ab"), rng.randint(0, 9), rng.randint(0, 99), rng.random() < 0.1, k) for k in range(m)]
        items.append(dict(cfg=dict(max=100, thr=5, leak=30, mem=True), ops=ops, style=dict(threads=4)))
    record_ops(ck, "proflib:concurrent", "TraceProfiler", items, case)
    jobs = [dict(cfg=dict(max=100), ops=[rec(t=k, rss=k % 3) for k in range(6)], style=dict(tools=True, seed=i, jit=i % 3 == 2)) for i in range(18 if th else 9)]
    for j, (status, v) in zip(jobs, run_ops(ck, "proflib:transforms", jobs, size=3)):
        if status != "ok":
            ck.violation("Results", case(j), dict(job=j, error=v))
    ck.assumptions.append("concurrent records are serialised in the order of their step numbers; the clock and the memory of the process are given by the harness")
