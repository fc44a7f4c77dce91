"""N02 dataset encoders: Codec.tla bound to wax.encode and Stream.get_dataset_schema."""
import json


def K(ty, *dims):
    m = 1
    for d in dims[1:]:
        m *= d
    return dict(ty=ty, dims=list(dims), m=m)


def run(ck):
    rng = ck.rng
    th = ck.thorough
    inv = dict(spec="Spec", invariants=["Injective", "RoundTrip"], properties=["Stable"])
    V3 = "={0, 1, 2}"
    S = "={<<2, 1>>, <<3, 3, 1>>, <<2>>}"
    plans = [
        dict(Kinds=[K("s", 3), K("i", 3)], L=3, Vals=V3, Ops=3 if th else 2, Sels=S),
        dict(Kinds=[K("d", 3), K("s")], L=3, Vals="={0, -1, 3}", Ops=3 if th else 2, Sels=S),
        dict(Kinds=[K("d", 3, 2)], L=3, Vals="={0, -2}", Ops=3, Sels=S),
        dict(Kinds=[K("d"), K("s", 2, 2), K("b", 2)], L=2, Vals="={0, 1}", Ops=3, Sels="={}"),
        dict(Kinds=[K("s", 2, 1, 3)], L=2, Vals=V3, Ops=2, Sels="={}"),
        dict(Kinds=[K("s", 1), K("d", 1), K("f", 1), K("u")], L=1, Vals=V3, Ops=3, Sels="={<<1, 1>>}"),
    ]
    items, want = [], []
    for k in plans:
        behs = ck.tlc("MCCodec", k, **inv).get("B")
        n = len(behs) if th else 1500
        for b in behs if len(behs) <= n else rng.sample(behs, n):
            items.append(dict(cfg=b["c"], ops=[[s["op"], s["sel"]] for s in b["h"]], check=rng.random() < 0.5, coord=rng.random() < 0.3))
            want.append(b["h"])
    for j, w, (status, got) in zip(items, want, ck.pmap("codeclib:drive", items)):
        case = dict(types="".join(v["ty"] for v in j["cfg"]["vars"]))
        if status != "ok":
            ck.violation("Shape" if got.startswith("Mismatch: shape") else "Raises", case, dict(job=j, error=got))
            continue
        ck.replayed(1, len(w))
        for t, (a, b) in enumerate(zip(w, got)):
            if a != b:
                ck.violation("Codes" if a["op"] == "encode" else "RoundTrip", case, dict(job=j, at=t, want=a, got=b))
                break
    ck.sample(dict(cfg=items[0]["cfg"], behaviour=want[0]))
    scen = []
    for _ in range(400 if th else 150):
        L = rng.randint(1, 6)
        vs = []
        for _ in range(rng.randint(1, 5)):
            ty = rng.choice("ssddifbu")
            dims = [] if rng.random() < 0.15 else [L] + [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 1, 2]))]
            v = K(ty, *dims)
            n = (dims[0] if dims else 1) * v["m"]
            lo, hi = dict(b=(0, 1), u=(0, 99), s=(0, rng.choice([3, 60]))).get(ty, (-60, 60))
            v["data"] = [rng.randint(lo, hi) for _ in range(n)]
            vs.append(v)
        full = list(range(1, L + 1))
        deep = any(v["ty"] == "s" and len(v["dims"]) > 1 for v in vs)
        ops = [["encode", full]]
        for _ in range(rng.randint(1, 6)):
            sel = full if deep or rng.random() < 0.4 else [rng.randint(1, L) for _ in range(rng.randint(1, 7))]
            ops.append([rng.choice(["encode", "decode"]), sel])
        if rng.random() < 0.3 and not deep:
            ops = [["encode", [rng.randint(1, L)]]] + ops
        scen.append(dict(cfg=dict(vars=vs), ops=ops, check=rng.random() < 0.5, coord=rng.random() < 0.3))
    traces = []
    for j, (status, got) in zip(scen, ck.pmap("codeclib:drive", scen)):
        case = dict(types="".join(v["ty"] for v in j["cfg"]["vars"]))
        if status != "ok":
            ck.violation("Shape" if got.startswith("Mismatch: shape") else "Raises", case, dict(job=j, error=got))
            continue
        traces.append(dict(cfg=j["cfg"], ev=got, case=case))
    ck.validate("TraceCodec", traces, case_of=lambda t, v: t["case"])

    def corrupt(t):
        for e in t["ev"]:
            for v, r in zip(t["cfg"]["vars"], e["r"]):
                if v["ty"] in "sd":
                    r[-1] += 1
                    return dict(cfg=t["cfg"], ev=t["ev"])
        return None

    ck.selftest_binding("TraceCodec", json.loads(json.dumps([dict(cfg=t["cfg"], ev=t["ev"]) for t in traces])), corrupt)
    ck.assumptions.append("a text variable of several dimensions is encoded and decoded as a whole (its codes are flat: see the known finding of S02)")
