"""N01 two-word encoding: Encode.tla bound to wax.encode."""
from encodelib import DAY, digits, exact, num

HOWS = ["int", "np", "array", "timestamp", "datetime", "datetime64:ns", "datetime64:us", "datetime64:s", "datetime64:D"]
LO, HI = -2**63 + 1, 2**63 - 1


def run(ck):
    rng = ck.rng
    th = ck.thorough
    inv = dict(spec="Spec", properties=["Lossless"])
    # every number and pair of small formats: the design
    for B, H, day in ((2, 2, [0, 0, 1, 1]), (2, 3, [0, 0, 0, 1, 0, 1])) + (((4, 2, [0, 0, 1, 2]), (3 * 2, 1, [0, 5])) if th else ((6, 1, [0, 5]),)):
        v = 0
        for d in day:
            v = v * B + d
        m = B ** (2 * H) // 2
        ck.tlc("MCEncode", dict(B=B, H=H, Day=day, Inputs="=All", Q=f"=(-{m // v})..{(m - 1) // v}"), constraint=None,
               invariants=["RoundTrip", "InOrder", "Floored", "HasFloor"], **inv)
    # the real format on its corners: byte patterns, word boundaries, days and their neighbours
    vals = set()
    for p in range(256):
        vals.add(num([255 if p >> k & 1 else 0 for k in range(8)]))
    for e in list(range(0, 63, 4)) + [31, 32, 33, 62]:
        vals |= {2**e, -(2**e)}
    for q in (0, 1, -1, 2, -2, 3, 18262, -3653, 100000, -100000):
        vals.add(q * DAY)
    vals |= {n + d for n in vals for d in (-1, 1)}
    vals |= {rng.randint(LO, HI) for _ in range(40)} | {rng.randint(-10**18, 10**18) for _ in range(40)}
    vals = sorted(n for n in vals if LO <= n <= HI)
    vals = [-(2**63)] + vals
    few = vals if th else sorted(rng.sample(vals, 250))
    pairs = sorted(rng.sample(vals, 130 if th else 70)) + [0, 1, -1, 2**32, 2**32 - 1, -2**32, HI, LO]
    one = lambda ns: "={" + ", ".join(_tla(digits(n)) for n in sorted(set(ns))) + "}"  # noqa: E731
    days = sorted({n // DAY for n in few})
    k = dict(B=256, H=4, Day=digits(DAY))
    r1 = ck.tlc("MCEncode", dict(k, Inputs=one(few), Q=set_(days)), action_constraint=None, never=("MCCmp",), constraint="Emit1", invariants=["RoundTrip"], **inv)
    r2 = ck.tlc("MCEncode", dict(k, Inputs=one(pairs), Q="={}"), constraint="Emit", never=("MCFlr",), invariants=["RoundTrip"], **inv)
    jobs, want = [], []
    for b in r1.get("B"):
        n = num(b["a"])
        if b["op"] == "decode":
            for how in HOWS:
                if n == -(2**63) and how not in ("int", "np", "array"):
                    continue  # not a date
                if exact(how, n) != n or (how == "datetime" and not abs(n) < 9 * 10**18):
                    continue
                jobs += [[how, "encode", b["a"], []], [how, "decode", b["a"], []]]
                want += [b["w"], b["r"]]
        elif b["op"] == "floor":
            for how in ("key", "array", "scalar"):
                jobs.append([how, "floor", b["a"], []])
                want.append(b["r"])
    for b in r2.get("B"):
        if b["op"] == "less":
            jobs.append([rng.choice(["np"] * 30 + ["jax"]), "less", b["a"], b["b"]])
            want.append(b["r"])
    got = drive_all(ck, jobs)
    CL = dict(encode="Words", decode="RoundTrip", less="Order", floor="Floor")
    for j, w, g in zip(jobs, want, got):
        ck.replayed(1, 1)
        v = g[0] if j[1] == "floor" and isinstance(g, list) else g
        if v != w:
            ck.violation("Raises" if isinstance(g, str) else CL[j[1]], dict(how=j[0], op=j[1]),
                         dict(a=num(j[2]), b=num(j[3]) if j[3] else None, want=w, got=g))
    ck.sample(dict(job=jobs[0], want=want[0]))
    # random numbers over the whole range
    jobs, idx = [], []
    for t in range(150 if th else 50):
        n = rng.choice([rng.randint(LO, HI), rng.randint(-2**33, 2**33), rng.randint(-10**6, 10**6), rng.randint(-200, 200) * DAY + rng.randint(-2, 2)])
        m = rng.choice([rng.randint(LO, HI), n + rng.randint(-2, 2), rng.randint(-2**33, 2**33), n ^ (1 << rng.randint(0, 62))])
        m = max(LO, min(HI, m))
        how = rng.choice(HOWS)
        n = exact(how, n)
        if n < LO or (how == "datetime" and abs(n) > 9 * 10**18):
            how = "int"
        js = [[how, "encode", digits(n), []], [how, "decode", digits(n), []], ["np", "less", digits(m), digits(n)]]
        if LO + DAY < m:
            js.append([rng.choice(["key", "array", "scalar"]), "floor", digits(m), []])
        idx.append((n, m, len(jobs), len(js)))
        jobs += js
    got = drive_all(ck, jobs)
    traces = []
    for n, m, at, k_ in idx:
        g = got[at:at + k_]
        bad = [x for x in g if isinstance(x, str)]
        if bad:
            ck.violation("Raises", dict(how=jobs[at][0]), dict(n=n, m=m, error=bad[0]))
            continue
        ev = [dict(op="put", r=digits(n)), dict(op="encode", r=g[0]), dict(op="decode", r=g[1]), dict(op="put", r=digits(m)), dict(op="less", r=g[2])]
        if k_ == 4:
            ev.append(dict(op="floor", r=g[3][0], q=g[3][1]))
        traces.append(dict(cfg=dict(how=jobs[at][0]), ev=ev))
    ck.validate("TraceEncode", traces, constants=k, case_of=lambda t, v: t["cfg"])

    def corrupt(t):
        t["ev"][4]["r"] = not t["ev"][4]["r"]
        return t

    ck.selftest_binding("TraceEncode", traces, corrupt, constants=k)


def set_(ns):
    return "={" + ", ".join(map(str, ns)) + "}"


def _tla(d):
    return "<<" + ", ".join(map(str, d)) + ">>"


def drive_all(ck, jobs):
    chunks = [jobs[a:a + 200] for a in range(0, len(jobs), 200)]
    out = []
    for c, (status, v) in zip(chunks, ck.pmap("encodelib:drive", chunks)):
        out += v if status == "ok" else [v] * len(c)
    return out
