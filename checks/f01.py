"""F01 accessors: Accessor.tla bound to the Dataset, DataArray, DataFrame and Series accessors."""
from vlib import tla

MISSING = -1000
L = lambda kind, shape, *leaves: dict(kind=kind, shape=list(shape), leaves=list(leaves))  # noqa: E731
LAYOUTS = [
    L("da", [], "same", "pos"), L("da", [], "same", "sum"), L("da", [2], "same"), L("da", [2], "sum", "sum"), L("da", [2], "same", "pos", "sum"),
    L("da", [1, 2], "same", "same"), L("da", [2, 1], "last", "sum"), L("da", [2, 2], "tr"), L("da", [2, 2], "same", "tr", "last", "sum"),
    L("da", [1, 2, 1], "same", "pos"), L("da", [1, 2, 1], "last", "same"),
    L("df", [2], "same"), L("df", [2], "same", "pos"), L("df", [2], "sum"), L("df", [2], "sum", "sum"), L("df", [2], "same", "sum", "pos"),
    L("df", [1], "same"), L("df", [2, 2], "same"), L("df", [2, 1], "same", "pos"), L("df", [2, 2], "sum"), L("df", [2, 1], "sum", "same"),
    L("series", [], "same"), L("series", [], "same", "pos", "sum"), L("series", [2], "same"), L("series", [2], "same", "sum"),
    L("series", [2, 2], "same", "pos"), L("series", [2, 1], "last"),
    L("ds", [], "same"), L("ds", [2], "same", "pos"), L("ds", [2], "sum"), L("ds", [2, 2], "same", "last", "sum", "tr"), L("ds", [1, 2], "last"),
]
ORIGINS = ["1969-12-30", "2000-01-01", "2021-02-26"]


def make(rng, cfg, xs):
    T, leaves = len(xs), cfg["leaves"]
    skip = cfg["skip"]
    uniform = all(k in ("same", "pos") for k in leaves) or all(k == "sum" for k in leaves)
    each = not uniform or any(k in ("last", "tr") for k in leaves)
    if not each and cfg["kind"] == "ds":
        fd = rng.choice(["whole", "each"])
    else:
        fd = "each" if each else rng.choice(["none", "none", "whole", "each"])
    low = 2 if skip else 1
    cuts = sorted(rng.sample(range(low, T), rng.randint(0, min(2, T - low)))) if T > low else []
    miss = any(v == MISSING for r in xs for v in r)
    n = len(cfg["shape"])
    return dict(cfg=cfg, xs=xs, cuts=cuts, nest=rng.choice(["tuple", "list", "map", "nest"]) if len(leaves) > 1 else rng.choice(["one", "one", "tuple", "map", "nest"]),
                fd=fd, fdtype=rng.choice(["array", "tuple", "list"]), dtype=rng.choice(["float64", "float64", "float32"] + ([] if miss else ["int64"])),
                x64=rng.random() < 0.6, time=rng.choice(["time", "date"]), named=n > 1 or each or fd != "none" or cfg["kind"] in ("da", "ds") or (cfg["kind"] == "series" and n > 0) or rng.random() < 0.5,
                multi=rng.choice(["columns", "index"]) if not any(k in ("last", "tr") for k in leaves) else "columns",
                rs=rng.random() < 0.5, fmt=rng.random() < 0.9 or (cfg["kind"] == "df" and n > 1) or (cfg["kind"] == "series" and n > 0), local=rng.random() < 0.3, salt=rng.randint(0, 5), origin=rng.choice(ORIGINS))


def case_of(j):
    return dict(kind=j["cfg"]["kind"], shape=j["cfg"]["shape"], leaves=j["cfg"]["leaves"], skip=j["cfg"]["skip"], calls=len(j["cuts"]) + 1)


def run(ck):
    rng, th = ck.rng, ck.thorough
    behs = []
    inv = dict(spec="Spec", invariants=["WellShaped", "Consistent", "Labelled"])
    groups = {}
    for l in LAYOUTS:
        n = 1
        for s in l["shape"]:
            n *= s
        groups.setdefault(n, []).append(l)
    for n, ls in sorted(groups.items()):
        vals, steps = {1: ([MISSING, 0, 1, 2], 4), 2: ([MISSING, 1, 2], 3), 4: ([MISSING, 2], 3 if th else 2)}[n]
        r = ck.tlc("MCAccessor", dict(Vals="={" + ", ".join(map(tla, vals)) + "}", Layouts="={" + ", ".join(tla(l) for l in ls) + "}", Steps=steps), **inv)
        behs += r.get("B")
    ck.notes["behaviours_enumerated"] = len(behs)
    pools = {}
    for b in behs:
        pools.setdefault((b["c"]["kind"], str(b["c"]["shape"]), str(b["c"]["leaves"]), b["c"]["skip"]), []).append(b)
    items = []
    per = 60 if th else 9
    for k in sorted(pools):
        p = pools[k]
        for b in p if len(p) <= per else rng.sample(p, per):
            items.append((make(rng, b["c"], [h["x"] for h in b["h"]]), b))
    for (j, b), (status, v) in zip(items, ck.pmap("accesslib:drive", [j for j, _ in items])):
        case = case_of(j)
        if status != "ok":
            ck.violation("Labels" if v.startswith("Mismatch") else "Raises", case, dict(job=j, error=v))
            continue
        want = [[h["y"]["lab"] - 1, h["y"]["v"]] for h in b["h"] if h["y"]]
        ck.replayed(1, len(want))
        if j["fmt"] and v["meta"] != b["m"]:
            ck.violation("Labels", case, dict(job=j, want=b["m"], got=v["meta"]))
        elif v["rows"] != want:
            ck.violation("TimeLabel" if [r[0] for r in v["rows"]] != [r[0] for r in want] else "Values", case, dict(job=j, want=want, got=v["rows"]))
    ck.sample(dict(job=items[0][0], expected=items[0][1]["h"]))
    # larger random containers, judged by TLC
    tj = []
    for _ in range(300 if th else 70):
        kind = rng.choice(["da", "df", "series", "ds"])
        n = rng.randint(0, 3) if kind in ("da", "ds") else rng.randint(1, 3) if kind == "df" else rng.randint(0, 3)
        shape = [rng.randint(1, [5, 5, 3][d]) for d in range(n)]
        ok = ["same", "pos", "sum"] + (["last"] if n and (kind != "df" or n == 2) else []) + (["tr"] if n == 2 and kind in ("da", "ds") else [])
        cfg = dict(kind=kind, shape=shape, leaves=[rng.choice(ok) for _ in range(rng.randint(1, 3))], skip=rng.random() < 0.3)
        m = 1
        for s in shape:
            m *= s
        blank = rng.random() < 0.4
        xs = []
        for t in range(rng.randint(3, 9)):
            gone = blank and rng.random() < 0.3
            xs.append([MISSING if gone or (blank and rng.random() < 0.2) else rng.randint(-9, 9) for _ in range(m)])
        j = make(rng, cfg, xs)
        j["fmt"] = True
        tj.append(j)
    traces = []
    for j, (status, v) in zip(tj, ck.pmap("accesslib:drive", tj)):
        if status != "ok":
            ck.violation("Labels" if v.startswith("Mismatch") else "Raises", case_of(j), dict(job=j, error=v))
            continue
        rows = dict((r[0], r[1]) for r in v["rows"])
        ev = [dict(x=x, skip=j["cfg"]["skip"] and t == 0, y=dict(lab=t + 1 if t in rows else 0, v=rows.get(t, []))) for t, x in enumerate(j["xs"])]
        traces.append(dict(cfg=dict(j["cfg"], meta=v["meta"]), ev=ev, job=j))
    ck.validate("TraceAccessor", traces, case_of=lambda t, v: case_of(t["job"]))

    def corrupt(t):
        t["ev"][-1]["y"]["v"][0][0] += 1
        return dict(cfg=t["cfg"], ev=t["ev"])

    ck.selftest_binding("TraceAccessor", traces, corrupt)
    # ---- formatting after a reference dataset
    behs = ck.tlc("MCAutoFormat", dict(MaxVars=2), spec="Spec", invariants=["Fits", "Complete"]).get("B")
    some = [b for b in behs if b["o"]["dims"]]
    pick = rng.sample(some, min(len(some), 4000 if th else 300)) + rng.sample(behs, 1000 if th else 60)
    aj = [dict(sizes=b["c"]["size"], vars=[[f"v{(7 * i) % 5}", d] for i, d in enumerate(b["c"]["vs"])], shape=b["o"]["shape"],
               fmt="dataframe" if len(b["o"]["shape"]) in (1, 2) and rng.random() < 0.4 else "dataarray") for b in pick]
    chunks = [aj[a:a + 40] for a in range(0, len(aj), 40)]
    res = [v for s, c in ck.pmap("accesslib:autos", chunks, chunk=1) for v in c]
    for j, b, (status, v) in zip(aj, pick, res):
        if status != "ok":
            ck.violation("AutoFormat", dict(shape=j["shape"]), dict(job=j, error=v))
            continue
        ck.replayed(1, 1)
        if v != b["o"]["dims"]:
            ck.violation("AutoFormat", dict(shape=j["shape"]), dict(job=j, want=b["o"]["dims"], got=v))
    ck.assumptions.append("multi-indexed pandas containers hold a full product of labels and are compared by label; 32-bit values")
