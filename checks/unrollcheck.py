"""Common part of U01 and U02."""
KEYED = ("rnd", "nst")  # kinds that draw a key

SPLIT = {"haiku": ["unroll_dyn", "unroll_static", "uts_dyn", "uts_static", "uts_jit", "dynamic_unroll", "static_unroll", "init_ps", "data"],
         "flax": ["unroll_dyn", "unroll_static", "uts_dyn", "uts_static", "uts_jit", "wrapper", "loop"]}
NOKEY_ENTRIES = {"haiku": ["fori"], "flax": []}
CONST = {"haiku": ["batch_dyn", "batch_static"], "flax": []}
SEQ = {"haiku": ["gym_static"], "flax": []}
SCAN = {"haiku": ["scan_xs", "scan_none"], "flax": []}  # plain static_scan, the key is what the carry makes of it
# the entry points where the parameters or the state alone can be given
PARTIAL = ["unroll_dyn", "unroll_static", "dynamic_unroll", "static_unroll", "fori", "gym_static"]


def entries(lib, cfg):
    if cfg["keys"] != "split":
        e = (CONST if cfg["keys"] == "const" else SEQ)[lib]
    else:
        e = SPLIT[lib] + SCAN[lib]
        if cfg["kind"] not in KEYED:
            e = e + NOKEY_ENTRIES[lib] + CONST[lib] + SEQ[lib]
        elif lib == "flax":
            e = e + ["aws"]
        if lib == "flax" and cfg["kind"] in ("acc", "sx0"):
            e = e + ["aws"]
    return e if cfg["gp"] == cfg["gs"] else [x for x in e if x in PARTIAL]


def shape_for(rng, entry):
    if entry == "fori":
        return rng.choice(["plain", "vec"])
    if entry in ("gym_static", "batch_dyn", "batch_static", "data"):
        return rng.choice(["plain", "vec"])
    return rng.choice(["plain", "vec", "tree"])


def expected_events(h):
    """history of MCUnroll -> events (without the start events)"""
    return [dict(e="step", y=x["y"], key=x["key"]) if x["e"] == "step" else dict(e="end", st=x["st"], par=x["y"]) for x in h]


def run(ck, lib):
    rng = ck.rng
    flax = lib == "flax"
    r = ck.tlc("MCUnroll", dict(Vals="={0, 1, 2}", MaxOne=4 if ck.thorough else 3, MaxTwo=2, Flax=flax), spec="Spec",
               invariants=["SplitInvisible", "ParamsConstant", "FreshKeys", "OnePerItem"])
    behs = [b for b in r.get("B") if entries(lib, b["c"])]
    ck.notes["behaviours_enumerated"] = len(behs)
    rng.shuffle(behs)
    # every entry point gets its share of every kind
    want = 5000 if ck.thorough else 900
    jobs = []
    pools = {}
    for b in behs:
        for e in entries(lib, b["c"]):
            pools.setdefault((e, b["c"]["kind"], b["c"]["skip"], b["c"]["gp"], b["c"]["gs"]), []).append(b)
    keys = sorted(pools)
    per = max(1, want // len(keys))
    for k in keys:
        for b in pools[k][:per]:
            cfg = dict(b["c"], rng=rng.random() < 0.4)
            jobs.append((dict(lib=lib, cfg=cfg, entry=k[0], shape=shape_for(rng, k[0])), b))
    run_jobs(ck, jobs)
    ck.notes["partially_given"] = sum(j["cfg"]["gp"] != j["cfg"]["gs"] for j, _ in jobs)
    # ---- recorded longer random executions, validated by TLC
    tj = []
    for k in range(260 if ck.thorough else 70):
        long = k % 14 == 0
        kind = rng.choice(["par", "sx0", "rnd"] if long else ["acc", "par", "sx0", "rnd", "nst"])
        n = rng.randint(1, 2 if long else 4)
        cfg = dict(kind=kind, skip=rng.random() < 0.4, gp=rng.random() < 0.4, gs=rng.random() < 0.4, gpar=rng.randint(-4, 4), gst=rng.randint(-5, 5),
                   consumes=flax, keys="split", rng=rng.random() < 0.5,
                   parts=[[rng.randint(-9, 9) for _ in range(rng.randint(90, 140) if long else rng.randint(1, 5))] for _ in range(n)])
        if len(cfg["parts"][0]) == 1:
            cfg["parts"][0].append(3)
        if kind in KEYED and not flax and rng.random() < 0.3:
            cfg["keys"] = rng.choice(["const", "seq"])
        if cfg["keys"] == "const" or rng.random() < 0.7:
            cfg["gs"] = cfg["gp"]
        e = rng.choice(entries(lib, cfg))
        tj.append(dict(lib=lib, cfg=cfg, entry=e, shape=shape_for(rng, e)))
    traces = []
    for j, (status, v) in zip(tj, run_items(ck, tj)):
        if status != "ok":
            ck.violation("Raises", dict(entry=j["entry"]), dict(job=j, error=v))
        else:
            traces.append(dict(cfg=j["cfg"], ev=v, job=j))
    ck.validate("TraceUnroll", traces, case_of=lambda t, v: dict(entry=t["job"]["entry"], shape=t["job"]["shape"]))

    def corrupt(t):
        for e in t["ev"]:
            if e["e"] == "step":
                e["y"] += 1
                return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    ck.selftest_binding("TraceUnroll", traces, corrupt)
    if traces:
        ck.sample(dict(recorded=traces[0]["ev"], cfg=traces[0]["cfg"], entry=traces[0]["job"]["entry"]))


def run_items(ck, items):
    for j in items:
        j["x64"] = ck.rng.random() < 0.75
    chunks = [items[a:a + 16] for a in range(0, len(items), 16)]
    res = ck.pmap("unrolllib:jobs", chunks, chunk=1)
    out = []
    for c, (status, v) in zip(chunks, res):
        if status != "ok":
            raise RuntimeError(v)
        out += v
    return out


def run_jobs(ck, jobs):
    res = run_items(ck, [j for j, _ in jobs])
    n = {}
    for (j, b), (status, v) in zip(jobs, res):
        n[j["entry"]] = n.get(j["entry"], 0) + 1
        case = dict(entry=j["entry"], kind=j["cfg"]["kind"], shape=j["shape"])
        if status != "ok":
            ck.violation("Raises", case, dict(job=j, error=v))
            continue
        want = expected_events(b["h"])
        got = [e for e in v if e["e"] != "start"]
        if j["cfg"]["kind"] not in KEYED:
            want = [dict(w, key=[]) if w["e"] == "step" else w for w in want]
        ck.replayed(1, len(want))
        if want != got:
            k = next((i for i, (w, g) in enumerate(zip(want, got)) if w != g), min(len(want), len(got)))
            w, g = (want[k] if k < len(want) else None), (got[k] if k < len(got) else None)
            if w is None or g is None or w["e"] != g["e"]:
                clause = "OneOutputPerItem"
            elif w["e"] == "end":
                clause = "FinalState" if w["st"] != g["st"] else "ParamsConstant"
            else:
                clause = "StepOutput" if w["y"] != g["y"] else "KeyThreading"
            ck.violation(clause, case, dict(job=j, at=k, want=want, got=got))
    ck.notes["scenarios_per_entry_point"] = n
    if jobs:
        ck.sample(dict(scenario=jobs[0][0], expected=expected_events(jobs[0][1]["h"])))
