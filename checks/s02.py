"""S02 values delivered to modules: StreamData.tla bound to the accessors."""
import json

from vlib import tla

K = lambda on, ty, *dims: dict(on=on, ty=ty, dims=list(dims), n=_prod(dims))  # noqa: E731


def _prod(d):
    n = 1
    for a in d:
        n *= a
    return n


ORIGINS = ["1970-01-01", "1969-12-25", "2020-02-27"]
MIX = [
    [K(1, "f"), K(1, "i", 2), K(1, "b", 2, 1), K(0, "f4", 2), K(0, "s"), K(-1, "f"), K(-1, "i", 3), K(1, "s"), K(1, "d"), K(-1, "d")],
    [K(1, "d", 2), K(1, "u"), K(1, "f4", 1, 2, 2), K(1, "i4"), K(0, "b"), K(0, "d"), K(-1, "s"), K(-1, "b", 2, 2), K(0, "i", 1, 3), K(-1, "f4", 1)],
    [K(0, "u", 2), K(1, "b"), K(-1, "s", 3), K(-1, "d", 2), K(1, "f", 3), K(-1, "u"), K(0, "i4", 2, 2), K(0, "f", 2, 1, 2), K(1, "i")],
]
TWO = [K(1, "f", 2), K(2, "i"), K(0, "f"), K(2, "f", 2, 2), K(1, "b"), K(-1, "f", 2), K(2, "s"), K(1, "d", 1)]


def run(ck):
    rng = ck.rng
    th = ck.thorough
    inv = dict(spec="Spec", invariants=["FromData", "Whole", "Together", "Causality", "ExactWindow"], properties=["Constant"])
    base = dict(LocalLen=3, SecLen=2, TickMin=-1, TickMax=3, Period=3, MaxBuf=3)
    groups = []
    one = lambda *ks: "={" + ", ".join(tla(k) for k in ks) + "}"  # noqa: E731
    for kinds in MIX:
        groups.append((ck.tlc("MCStreamData", dict(base, KindSets=one(kinds), NSec=1), **inv).get("B"), 1500 if th else 50, "dataset"))
    groups.append((ck.tlc("MCStreamData", dict(base, LocalLen=2, KindSets=one(TWO), NSec=2), **inv).get("B"), 800 if th else 40, "dataset"))
    single = [K(0, "f"), K(-1, "f"), K(0, "s"), K(0, "d", 2), K(-1, "i", 2, 2), K(0, "i", 3), K(0, "b", 1, 2)]
    groups.append((ck.tlc("MCStreamData", dict(base, LocalLen=4, KindSets=one(single), NSec=0), **inv).get("B"), 70 if th else 20, "dataset"))
    singles = [(how, K(0, ty, *dims)) for ty in ("f", "f4", "i", "i4", "b", "u", "d", "s")
               for how, dims in (("series", ()), ("dataarray", ()), ("dataframe", (2,)), ("dataarray", (2,)), ("dataarray", (1, 3)))
               if ty != "s" or (how == "dataarray" and not dims)]
    behs = ck.tlc("MCStreamData", dict(base, LocalLen=3, TickMax=1, KindSets=one(*{json.dumps(k): [k] for _, k in singles}.values()), NSec=0), **inv).get("B")
    for how, k in singles:
        bs = [b for b in behs if all(b["c"]["vars"][0][a] == k[a] for a in ("ty", "dims"))]
        groups.append((bs, 10 if th else 2, how))
    # the text variables of several dimensions (known finding)
    r = ck.tlc("MCStreamData", dict(base, LocalLen=3, TickMax=1, KindSets=one([K(0, "s", 2)]), NSec=0), **inv)
    groups.append((r.get("B"), 3, "dataset"))
    items, want = [], []
    for behs, n, how in groups:
        for b in behs if len(behs) <= n else rng.sample(behs, n):
            order = list(range(len(b["c"]["vars"])))
            rng.shuffle(order)
            items.append(dict(cfg=b["c"], how=how, x64=rng.random() < 0.5, order=order, origin=rng.choice(ORIGINS), unit=rng.choice(["ns", "ns", "s"])))
            want.append(b["h"])
    for j, w, (status, got) in zip(items, want, ck.pmap("datalib:drive", items)):
        case = case_of(j)
        if status != "ok":
            ck.violation("Shape" if got.startswith("Mismatch") else "Raises", case, dict(job=j, error=got))
            continue
        ck.replayed(1, len(w), sum(len(v) for s in w for v in s))
        if got != w:
            for t, (a, b) in enumerate(zip(w, got)):
                bad = [m for m in range(len(a)) if a[m] != b[m]]
                if bad:
                    m = bad[0]
                    ck.violation("Values", case, dict(local=j["cfg"]["local"], sec=j["cfg"]["sec"], step=t, variable=j["cfg"]["vars"][m],
                                                      want=a[m], got=b[m], x64=j["x64"], how=j["how"]))
                    break
    ck.sample(dict(cfg=items[0]["cfg"], delivered=want[0]))
    # random datasets, judged by TLC
    scen = []
    for _ in range(200 if th else 60):
        ns = rng.choice([0, 1, 1, 2, 3])
        rs = lambda m: sorted(rng.randint(-6, 12) for _ in range(m))  # noqa: E731
        sec = [dict(times=rs(rng.randint(1, 7)), period=rng.choice([0, 3]), maxlen=rng.choice([0, 0, 1, 2, 4]), ffill=rng.choice([True, False])) for _ in range(ns)]
        local = rs(rng.randint(1, 9))
        vs = []
        for m in range(rng.randint(2, 7)):
            on = rng.choice([-1, 0] + 2 * list(range(1, ns + 1)))
            ty = rng.choice(["f", "f4", "i", "i4", "b", "u", "d", "s", "f"])
            dims = [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
            if ty == "s":
                dims = dims[:1] if on < 0 else []
            vs.append(K(on, ty, *dims))
        for s in range(ns + 1):  # every time line carries a variable
            if not any(v["on"] == s for v in vs):
                vs.append(K(s, "f"))
        for v in vs:
            nobs = 1 if v["on"] < 0 else len(local) if v["on"] == 0 else len(sec[v["on"] - 1]["times"])
            lo, hi = dict(b=(0, 1), u=(0, 99), s=(0, 15)).get(v["ty"], (-99, 99))
            v["data"] = [[-777777 if v["ty"][0] == "f" and rng.random() < 0.15 else rng.randint(lo, hi) for _ in range(v["n"])] for _ in range(nobs)]
        order = list(range(len(vs)))
        rng.shuffle(order)
        scen.append(dict(cfg=dict(local=local, sec=sec, vars=vs), how="dataset", x64=rng.random() < 0.5, order=order, origin=rng.choice(ORIGINS), unit=rng.choice(["ns", "ns", "s", "us"])))
    traces = []
    for j, (status, got) in zip(scen, ck.pmap("datalib:drive", scen)):
        if status != "ok":
            ck.violation("Shape" if got.startswith("Mismatch") else "Raises", case_of(j), dict(job=j, error=got))
            continue
        traces.append(dict(cfg=j["cfg"], ev=got, job=j))
    ck.validate("TraceStreamData", traces, case_of=lambda t, v: case_of(t["job"]))

    def corrupt(t):
        for m, v in enumerate(t["cfg"]["vars"]):
            if v["on"] >= 0 and v["ty"] != "b":
                t["ev"][-1][m][0] += 1
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    ck.selftest_binding("TraceStreamData", json.loads(json.dumps([dict(cfg=t["cfg"], ev=t["ev"]) for t in traces])), corrupt)
    ck.assumptions.append("sorted time lines, one observation at least; integers that fit in 32 bits; the time dimension comes first (documented limitation)")


def case_of(j):
    return dict(how=j["how"], text_dims=max([len(v["dims"]) + (v["on"] >= 0) for v in j["cfg"]["vars"] if v["ty"] == "s"] or [0]))
