"""V01 lifted and batched transformations: Lift.tla bound to wax.stateful and wax.modules.vmap."""
ENTRIES = ["vmap_in_unroll", "vmap_module", "add_batch", "mean_batch", "unroll_lift", "vmap_of_unroll", "unroll_of_vmap"]
KW = [dict(init_rng=False), dict(init_rng=True), dict(split_rng=True), {}]


def make(rng, cfg, entry):
    j = dict(do="run", cfg=cfg, entry=entry, shape=rng.choice(["plain", "vec", "tree"]), dynamic=rng.random() < 0.7,
             kw=rng.choice(KW), akey=rng.random() < 0.3, x64=rng.random() < 0.75)
    if entry == "mean_batch":
        j["shape"] = "plain"
    if not cfg["skip"] and len(cfg["steps"]) > 1 and rng.random() < 0.5:
        j["cut"] = rng.randint(1, len(cfg["steps"]) - 1)
    return j


def items(ck, js):
    chunks = [js[a:a + 12] for a in range(0, len(js), 12)]
    out = []
    for (status, v) in ck.pmap("liftlib:jobs", chunks, chunk=1):
        if status != "ok":
            raise RuntimeError(v)
        out += v
    return out


def run(ck):
    rng = ck.rng
    r = ck.tlc("MCLift", dict(Vals="={0, 1, 2}", MaxB=2, MaxT=3), spec="Spec", invariants=["Independent", "Symmetric"])
    behs = r.get("B")
    ck.notes["behaviours_enumerated"] = len(behs)
    rng.shuffle(behs)
    behs.sort(key=lambda b: -len(b["c"]["steps"]))
    n = 2400 if ck.thorough else 336
    per = n // (len(ENTRIES) * 3)
    jobs = []
    for e in ENTRIES:
        for kind in ("acc", "par", "sx0"):
            pool = [b for b in behs if b["c"]["kind"] == kind]
            sel = pool[: per * 3 // 4] + rng.sample(pool, per // 4)
            jobs += [(make(rng, b["c"], e), b) for b in sel]
    for (j, b), (status, v) in zip(jobs, items(ck, [j for j, _ in jobs])):
        case = dict(entry=j["entry"], kind=j["cfg"]["kind"], shape=j["shape"])
        if status != "ok":
            ck.violation("Raises", case, dict(job=j, error=v))
            continue
        wy, wst = [h["y"] for h in b["h"]], b["h"][-1]["st"]
        ck.replayed(1, len(wy))
        if "mean" in v:
            wm = [sum(y) / len(y) for y in wy]
            if any(abs(a - c) > 1e-9 for a, c in zip(wm, v["mean"])) or len(wm) != len(v["mean"]):
                ck.violation("BatchMean", case, dict(job=j, want=wm, got=v["mean"]))
        elif v["y"] != wy:
            ck.violation("IndependentOutput", case, dict(job=j, want=wy, got=v["y"]))
        if v["st"] != wst:
            ck.violation("IndependentState", case, dict(job=j, want=wst, got=v["st"]))
    ck.sample(dict(scenario=jobs[0][0], outputs=[h["y"] for h in jobs[0][1]["h"]]))
    # ---- recorded larger batches
    tj = []
    for _ in range(160 if ck.thorough else 40):
        nb, nt = rng.randint(1, 5), rng.randint(2, 6)
        cfg = dict(kind=rng.choice(["acc", "par", "sx0"]), skip=rng.random() < 0.3,
                   steps=[[rng.randint(-9, 9) for _ in range(nb)] for _ in range(nt)])
        tj.append(make(rng, cfg, rng.choice([e for e in ENTRIES if e != "mean_batch"])))
    traces = []
    for j, (status, v) in zip(tj, items(ck, tj)):
        if status != "ok":
            ck.violation("Raises", dict(entry=j["entry"]), dict(job=j, error=v))
            continue
        ev = [dict(y=y, st=[]) for y in v["y"]]
        if ev:
            ev[-1]["st"] = v["st"]
        traces.append(dict(cfg=j["cfg"], ev=ev, job=j))
    ck.validate("TraceLift", traces, case_of=lambda t, v: dict(entry=t["job"]["entry"], shape=t["job"]["shape"]))

    def corrupt(t):
        if len(t["ev"][-1]["y"]) > 1:
            t["ev"][-1]["y"][1] += 1
            return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    ck.selftest_binding("TraceLift", traces, corrupt)
    # ---- keys: all distinct over elements and steps; Flax's stateless VMap
    kj = [dict(do="keys", entry=e, nb=3, nt=4, seed=s) for e in ("vmap", "unroll") for s in (1, 2)]
    kj += [dict(do="flax", x=[rng.randint(-5, 5) for _ in range(k)], mean=m, factory=f)
           for k in (1, 2, 3, 5) for m in (True, False) for f in (True, False)]
    for j, (status, v) in zip(kj, items(ck, kj)):
        case = dict(entry=j.get("entry", "flax"))
        if status != "ok":
            ck.violation("Raises", case, dict(job=j, error=v))
        elif j["do"] == "keys":
            if len(set(v)) != len(v):
                ck.violation("KeyReused", case, dict(job=j, got=v))
        else:
            x = j["x"]
            a, b = [2 * z + 1 for z in x], [z * z for z in x]
            ck.replayed(1, 1)
            if j["mean"]:
                ok = abs(v["a"] - sum(a) / len(a)) < 1e-9 and abs(v["b"] - sum(b) / len(b)) < 1e-9 and abs(v["m"] - sum(x) / len(x)) < 1e-9
            else:
                ok = v["a"] == a and v["b"] == b
            if not ok:
                ck.violation("FlaxVMap", case, dict(job=j, got=v))
