"""G02 gym_unroll and callbacks: GymCallbacks.tla bound to wax.gym."""
from gymcblib import ops_of


def run_all(ck, items, size=40):
    order = list(range(len(items)))
    ck.rng.shuffle(order)
    chunks = [order[a:a + size] for a in range(0, len(order), size)]
    res = ck.pmap("gymcblib:jobs", [[items[i] for i in c] for c in chunks], chunk=1)
    out = [None] * len(items)
    for c, (status, v) in zip(chunks, res):
        if status != "ok":
            raise RuntimeError(v)
        for i, r in zip(c, v):
            out[i] = r
    return out


def nest(v):
    return [list(a) if isinstance(a, (list, tuple)) else a for a in v]


def run(ck):
    rng = ck.rng
    th = ck.thorough
    sets = []
    inv = dict(invariants=["InContext", "Hidden", "Stops", "OneBar"], properties=["Restored"])
    base = dict(Data=[1, -2, 3], Runs=2, Faults=1, Explicit='={{}}')
    plans = [
        dict(base, Ops=5 if th else 4, Cs='={"A", "B"}'),
        dict(base, Ops=5 if th else 4, Cs='={"S", "R"}', Faults=0, Data=[1, -2, 3, 4, 2]),
        dict(base, Ops=5 if th else 4, Cs='={"A", "N"}', Data=[1, 2], Faults=0),
        dict(base, Ops=5 if th else 4, Cs='={"A", "P"}', Faults=0, Data=[1, 2]),
        dict(base, Ops=4 if th else 3, Cs='={"P", "S"}', Explicit='={{}, {"A", "P"}}', Data=[2, 3]),
        dict(base, Ops=3, Cs='={"R", "B"}', Explicit='={{}, {"A"}, {"S", "B"}, {"R", "A"}}', Data=[2, 3, 1, 5]),
        dict(base, Ops=4 if th else 3, Cs='={"A", "B", "S", "R", "P", "N"}', Data=[1, 3, 2]),
    ]
    for k in plans:
        r = ck.tlc("MCGymCallbacks", k, spec="Spec", never=(() if k["Faults"] else ("MCRaise",)) + (() if '"R"' in k["Cs"] + k["Explicit"] else ("MCOutputs",)) + (() if '"P"' in k["Cs"] + k["Explicit"] else ("MCBars",)), **inv)
        behs = r.get("B")
        seen = {}
        for b in behs:
            import json
            seen.setdefault(json.dumps(b["h"], sort_keys=True), b)
        sets.append(list(seen.values()))
    items, want = [], []
    for behs in sets:
        n = 20000 if th else 2500
        py = behs if len(behs) <= n else rng.sample(behs, n)
        n = 1500 if th else 120
        hk = behs if len(behs) <= n else rng.sample(behs, n)
        for style, sel in (("py", py), ("hk", hk)):
            for b in sel:
                items.append(dict(style=style, data=b["c"]["data"], ops=ops_of(b["h"]), method=rng.random() < 0.5, objects=rng.random() < 0.7))
                want.append(b["h"])
    for j, w, (status, ev) in zip(items, want, run_all(ck, items)):
        case = dict(style=j["style"], method=j["method"])
        if status != "ok":
            ck.violation("Raises", case, dict(ops=j["ops"], error=ev))
            continue
        ck.replayed(1, len(w))
        for t, e in enumerate(w):
            g = ev[t] if t < len(ev) else None
            if g is None or g["op"] != e["op"] or sorted(g["s"]) != sorted(e["s"]) or nest(g["v"]) != nest(e["v"]):
                ck.violation("Order" if g is None or g["op"] != e["op"] else "Event", case, dict(ops=j["ops"], at=t, want=e, got=g, data=j["data"]))
                break
        else:
            if len(ev) > len(w):
                ck.violation("Unexpected", case, dict(ops=j["ops"], got=ev[len(w)], data=j["data"]))
    ck.sample(dict(data=items[0]["data"], behaviour=want[0]))
    ck.notes["behaviours_by_style"] = {s: sum(j["style"] == s for j in items) for s in ("py", "hk")}
    # longer random sessions, validated by TLC
    scen = []
    for _ in range(400 if th else 150):
        ops, active, stack, reg = [], set(), [], set()
        nd = rng.randint(3, 14)
        left, stopn, rec, bars = nd, 0, 0, 0
        for _ in range(rng.randint(4, 14)):
            k = rng.choice(["enter", "leave", "register", "unregister", "areset", "run", "run", "run", "outputs", "bars"])
            free = [c for c in "ABSRPN" if c not in active]
            if k == "enter" and free:
                c = rng.choice(free)
                active.add(c)
                stack.append(c)
                ops.append(dict(op=k, s=[c], v=[]))
            elif k == "leave" and stack:
                c = stack.pop()
                active.discard(c)
                ops.append(dict(op=k, s=[c], v=[rng.randint(0, 1)]))
            elif k == "register" and free:
                c = rng.choice(free)
                active.add(c)
                reg.add(c)
                ops.append(dict(op=k, s=[c], v=[]))
            elif k == "unregister" and reg:
                c = rng.choice(sorted(reg))
                reg.discard(c)
                active.discard(c)
                ops.append(dict(op=k, s=[c], v=[]))
            elif k == "areset" or (k == "outputs" and rec) or (k == "bars" and bars):
                ops.append(dict(op=k, s=[], v=[]))
            elif k == "run":
                x = int(rng.random() < 0.3)
                s = sorted(rng.sample("ABSRP", rng.randint(0, 3))) if x else []
                on = set(s) if x else active
                given = left == 0 or rng.random() < 0.3
                o = dict(op=k, s=s, v=[x, int(given)])
                if rng.random() < 0.25:
                    f = rng.choice(["act", "step"] + (["onact"] if "A" in on else []) + (["start"] if "A" in on and not on & {"N", "P"} else []) + (["onstep"] if on & set("ABSRP") == {"A"} else []) + (["end"] if on & set("ABP") == {"A"} else []))
                    o["fail"] = [f, 0]
                ops.append(o)
                # what the run consumes
                left -= not given
                f = o.get("fail", [None])[0]
                bars += "P" in on
                while f in (None, "onstep", "end"):
                    done = left == 0
                    left -= not done
                    if f == "onstep":
                        break
                    stopn += "S" in on
                    rec += "R" in on and not done
                    if done or ("S" in on and stopn >= 2):
                        break
        scen.append(dict(style=rng.choice(["py", "py", "hk"]), data=[rng.randint(-5, 9) for _ in range(nd)], ops=ops, method=rng.random() < 0.5, objects=rng.random() < 0.7))
    traces = []
    for j, (status, ev) in zip(scen, run_all(ck, scen, 10)):
        case = dict(style=j["style"])
        if status != "ok":
            ck.violation("Raises", case, dict(ops=j["ops"], error=ev, data=j["data"]))
            continue
        traces.append(dict(cfg=dict(data=j["data"]), ev=ev, case=case))
    ck.validate("TraceGymCallbacks", traces, case_of=lambda t, v: t["case"])

    def corrupt(t):
        for i, e in enumerate(t["ev"]):
            if e["op"] == "onstep":
                del t["ev"][i]
                return t
        return None

    ck.selftest_binding("TraceGymCallbacks", traces, corrupt)
