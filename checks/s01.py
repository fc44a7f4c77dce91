"""S01 synchronisation of streams: StreamSync.tla bound to wax.stream / the Dataset accessor."""
from streamlib import COARSE, INNER

SHOWS = ["", "", "", "verbose", "some", "pbar"]  # diagnostics, that change nothing
UNITS = [None, None, ["us"], ["s"], ["ns", "s", "us"], ["ms", "ns"]]  # of the coordinates
ORIGINS = ["1970-01-01", "1969-12-25", "2020-02-27", "1962-03-01"]


def rand_cfg(rng, nsec, n, long=False):
    def rs(m):
        return sorted(rng.randint(-4, 90 if long else 8) for _ in range(m * 12 if long else m))

    sec = [dict(times=rs(rng.randint(1, 6)), period=rng.choice([0, 3]), maxlen=rng.choice([0, 5, 17, 40] if long else [0, 0, 1, 2, 3, 5]),
                ffill=rng.choice([True, False])) for _ in range(nsec)]
    return dict(local=rs(n), sec=sec)


def grain(rng):
    """units of the coordinates and when the ticks of a day occur"""
    u = rng.choice(UNITS)
    return dict(units=u, inner=rng.choice(COARSE if u else list(INNER)), x64=rng.random() < 0.3)


def run(ck):
    rng = ck.rng
    # ---- exhaustive model check of the design + all behaviours of the small model
    r = ck.tlc("MCStreamSync", dict(LocalLen=3, SecLen=3, TickMin=-1, TickMax=3, Period=3, MaxBuf=3, NSec=1),
               invariants=["Causality", "ExactWindow", "NoDuplicates"], properties=["Monotone"], spec="Spec")
    behs = r.get("B")
    ck.notes["behaviours_enumerated"] = len(behs)
    ck.tlc("MCStreamSync", dict(LocalLen=2, SecLen=2, TickMin=-1, TickMax=3, Period=3, MaxBuf=2, NSec=2),
           invariants=["Causality", "ExactWindow", "NoDuplicates"], properties=["Monotone"], spec="Spec")
    # ---- model -> code: behaviours that share their local time line are packed as
    # secondary streams of one dataset (independence of the streams is part of the property)
    bylocal = {}
    for b in behs:
        bylocal.setdefault(tuple(b["c"]["local"]), []).append((b["c"]["sec"][0], [h[0] for h in b["h"]]))
    jobs, expect = [], []
    budget = len(behs) if ck.thorough else 6400
    per_local = max(16, budget // len(bylocal))
    for lc, lst in sorted(bylocal.items()):
        rng.shuffle(lst)
        lst = lst[:per_local]
        for a in range(0, len(lst), 20):
            part = lst[a:a + 20]
            order = ["local"] + [f"s{k}" for k in range(len(part))]
            rng.shuffle(order)
            jobs.append(dict(how="trace", local=list(lc), sec=[s for s, _ in part], order=order,
                             origin=rng.choice(ORIGINS), **grain(rng), show=rng.choice(SHOWS)))
            expect.append([h for _, h in part])
    # the same through the accessor, on delivered values
    n_app = len(jobs) if ck.thorough else 24
    app = rng.sample(range(len(jobs)), min(n_app, len(jobs)))
    for k in app:
        jobs.append(dict(jobs[k], how="apply"))
        expect.append(expect[k])
    # the merged generator, with and without its first item
    for k in rng.sample(range(len(jobs)), min(len(jobs), 300 if ck.thorough else 40)):
        if len(jobs[k]["local"]) > 1:
            jobs.append(dict(jobs[k], how="merge", skip=rng.random() < 0.6))
            expect.append(expect[k])
    res = ck.pmap("streamlib:job", jobs)
    for j, e, (status, v) in zip(jobs, expect, res):
        n = len(j["local"])
        case = dict(how=j["how"], show=j["show"])
        if status != "ok":
            ck.violation("Raises", case, dict(job=j, error=v))
            continue
        loc, outs, nx = v
        ck.replayed(len(e), n * len(e))
        if loc != list(range(n)) or nx != n:
            ck.violation("OneOutputPerLocalStep", case, dict(job=j, got=loc, steps=nx))
        for k, (want, got) in enumerate(zip(e, outs)):
            if j.get("skip"):
                want = [None] + want[1:]
            if want != got:
                ck.violation("ReplayedBehaviour", case,
                             dict(local=j["local"], stream=j["sec"][k], origin=j["origin"], want=want, got=got))
    ck.sample(dict(local=jobs[0]["local"], stream=jobs[0]["sec"][0], outputs=expect[0][0]))
    # ---- code -> model: longer random executions, recorded and judged by TLC
    ntr = 400 if ck.thorough else 120
    tj = []
    for q in range(ntr):
        c = rand_cfg(rng, rng.randint(1, 4), rng.randint(1, 10), q % 10 == 3)
        order = ["local"] + [f"s{k}" for k in range(len(c["sec"]))]
        rng.shuffle(order)
        tj.append(dict(how="apply" if q % 6 == 0 else "trace", order=order, origin=rng.choice(ORIGINS),
                       **grain(rng), show=rng.choice(SHOWS), **c))
    traces = []
    for j, (status, v) in zip(tj, ck.pmap("streamlib:job", tj)):
        if status != "ok":
            ck.violation("Raises", dict(how=j["how"]), dict(job=j, error=v))
            continue
        loc, outs, nx = v
        ev = [dict(local=loc[t], out=[o[t] for o in outs]) for t in range(len(loc))]
        traces.append(dict(cfg=dict(local=j["local"], sec=j["sec"]), ev=ev, how=j["how"]))
    ck.validate("TraceStreamSync", traces, case_of=lambda t, v: dict(how=t["how"]))

    def corrupt(t):
        for e in t["ev"]:
            for o in e["out"]:
                if o[-1] >= 0:
                    o[-1] += 1
                    return t
        return None

    ck.selftest_binding("TraceStreamSync", traces, corrupt)
    if traces:
        ck.sample(dict(recorded=traces[0]))
    ck.assumptions.append("time lines are sorted (non-strictly), at least one observation per stream")
