"""D03 memory tracker: Tracker.tla bound to the memory tracker and its decorator."""
from oplib import distinct, record_ops, replay_ops
from vlib import tla


def st(v=0, b=0, p=0, c=0):
    return dict(p=p, b=b, v=v, c=c)


def snap(rss=10, mod="a", state=None, force=False):
    return dict(op="snap", mod=mod, rss=rss, st=state or st(), force=force)


def call(rss=10, rss2=12, mod="m", state=None, det=True, exc=False, pair=True, t=1):
    return dict(op="call", mod=mod, rss=rss, rss2=rss2, st=state or st(8, 16), det=det, exc=exc, pair=pair, t=t)


OFF, ON, RESET, WAIT = dict(op="switch", to=False), dict(op="switch", to=True), dict(op="reset"), dict(op="wait", t=5)


def cfg(first, pool, max=6, interval=1, thr=10):
    return dict(max=max, interval=interval, thr=thr, first=first, pool=pool)


def configs():
    return [
        cfg([], [snap(10), snap(30, "b", st(8)), snap(5, "a", st(3, 16, 40, 2)), OFF, ON, RESET], max=2),
        cfg([], [snap(10), snap(30, "b", st(8), True), call(5, 40), call(7, 9, "a", det=False), RESET, WAIT], interval=2, max=4),
        cfg([], [call(20, 30), call(20, 10, exc=True), call(5, 50, pair=False), call(9, 9, "a", st(0, 0, 100)), OFF, ON], max=5, interval=3),
        cfg([snap(10 + i) for i in range(3)], [snap(10), snap(30), snap(60, "b"), snap(110), snap(111, "m", force=True), call(21, 40)]),
        cfg([snap(40, "b"), snap(0)] + [snap(20 + 3 * i) for i in range(7)], [snap(38), snap(60, "b"), snap(90), snap(150)], max=30),
        cfg([snap(10 * i) for i in range(9)], [snap(31), snap(60, force=True), snap(90), call(70, 140, "b"), RESET], interval=2, max=8),
        cfg([snap(5)] * 4, [snap(16), snap(26), snap(57), snap(107), snap(3)], max=20, interval=1, thr=20),
    ]


def case(j):
    s = j["style"]
    return {k: s[k] for k in ("threads",) if k in s}


def run(ck):
    rng, th = ck.rng, ck.thorough
    r = ck.tlc("MCTracker", dict(T=5 if th else 4, Configs="={" + ", ".join(tla(c) for c in configs()) + "}"), spec="Spec", invariants=["Bounded", "InOrder", "Whole", "RealLeaks"], properties=["Off"])
    behs = distinct(r.get("B"))
    n = 40000 if th else 6000
    behs = behs if len(behs) <= n else rng.sample(behs, n)
    replay_ops(ck, "tracklib:drive", behs, lambda b: [dict(seed=rng.randrange(10**6))], case)
    leaks = sum(bool(b["h"][-1]["y"]["leaks"]) for b in behs)
    ck.notes["histories_with_leaks"] = leaks
    if not leaks:
        raise RuntimeError("no leak explored")

    items = []
    for _ in range(200 if th else 50):
        c = dict(max=rng.choice([1, 4, 6, 12, 40]), interval=rng.choice([1, 1, 2, 3, 5]), thr=rng.choice([0, 10, 25]))
        ops, slope = [], rng.choice([0, 0, 1, 3, 8])
        for i in range(rng.randint(10, 32)):
            k = rng.choice(["snap"] * 9 + ["call"] * 3 + ["switch", "wait", "reset" if rng.random() < 0.3 else "snap"])
            g = slope * i + rng.randint(0, 15)
            s = st(*(rng.choice([0, 8, 17, 64]) for _ in range(4))) if rng.random() < 0.7 else st()
            ops.append({"snap": lambda: snap(g, rng.choice("abm"), s, rng.random() < 0.3), "call": lambda: call(g, g + rng.randint(0, 9), rng.choice("abm"), s, rng.random() < 0.7, rng.random() < 0.2, rng.random() < 0.8, rng.randint(0, 9)),
                        "switch": lambda: dict(op="switch", to=rng.random() < 0.75), "reset": lambda: RESET, "wait": lambda: WAIT}[k]())
        items.append(dict(cfg=c, ops=ops, style=dict(seed=rng.randrange(10**6))))

    def corrupt(t):
        for e in reversed(t["ev"]):
            if e["seen"] and e["y"]["snaps"]:
                e["y"]["snaps"][-1]["buffers"] += 1
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    record_ops(ck, "tracklib:drive", "TraceTracker", items, case, corrupt)
    items = []
    for i in range(24 if th else 8):
        m = 4 * rng.randint(4, 9)
        ops = [snap(rng.randint(0, 99), rng.choice("ab"), st(k + 1), True) for k in range(m)]
        items.append(dict(cfg=dict(max=100, interval=3, thr=10), ops=ops, style=dict(threads=4)))
    record_ops(ck, "tracklib:concurrent", "TraceTracker", items, case)
    ck.assumptions.append("concurrent snapshots are serialised in the order of their step numbers; the clock and the memory of the process are given by the harness")
