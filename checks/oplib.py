"""Replays and records histories of operations: [op, answer] pairs, compared as they are."""
import json


def run_ops(ck, fn, items, size=40):
    order = list(range(len(items)))
    ck.rng.shuffle(order)
    chunks = [order[a:a + size] for a in range(0, len(order), size)]
    res = ck.pmap("oplib:jobs", [(fn, [items[i] for i in c]) for c in chunks], chunk=1)
    out = [None] * len(items)
    for c, (status, v) in zip(chunks, res):
        if status != "ok":
            raise RuntimeError(v)
        for i, r in zip(c, v):
            out[i] = r
    return out


def jobs(arg):
    fn, items = arg
    from vlib import _call

    return [_call((fn, it)) for it in items]


def distinct(behs):
    seen = {}
    for b in behs:
        seen.setdefault(json.dumps(b, sort_keys=True), b)
    return list(seen.values())


def same(a, b, tol=1e-9):
    """equal values; a pair of integers of the specification may be a rational of the implementation, and "?" is any value"""
    if b == "?":
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, list):
        from vlib import close

        return close(a, b, tol)
    return type(a) is type(b) and a == b


def replay_ops(ck, fn, behs, styles, case_of):
    """styles(beh) -> list of style dicts"""
    items, want = [], []
    for b in behs:
        for s in styles(b):
            items.append(dict(cfg=b["c"], ops=[e["o"] for e in b["h"]], style=s))
            want.append(b["h"])
    count = {}
    for j, w, (status, ys) in zip(items, want, run_ops(ck, fn, items)):
        case = case_of(j)
        count[str(case)] = count.get(str(case), 0) + 1
        if status != "ok":
            ck.violation("Raises", case, dict(job=j, error=ys))
            continue
        ck.replayed(1, len(w))
        for t, (e, g) in enumerate(zip(w, ys)):
            if not same(g, e["y"]):
                bad = [k for k in e["y"] if not same(g[k], e["y"][k])]
                ck.violation("Report", dict(case, op=e["o"]["op"], field=bad[0] if bad else "?"), dict(job=j, at=t, want=e["y"], got=g))
                break
    ck.notes.setdefault("histories_per_style", {}).update(count)
    if items:
        ck.sample(dict(cfg=items[0]["cfg"], ops=items[0]["ops"], style=items[0]["style"]))


def record_ops(ck, fn, module, items, case_of, corrupt=None):
    traces = []
    for j, (status, ys) in zip(items, run_ops(ck, fn, items, size=6)):
        if status != "ok":
            ck.violation("Raises", case_of(j), dict(job=j, error=ys))
            continue
        if isinstance(ys, dict):  # the driver chose the order of the operations
            ops, ys = ys["ops"], ys["ys"]
        else:
            ops = j["ops"]
        traces.append(dict(cfg=j["cfg"], ev=[dict(o=o, y=y if y is not None else {}, seen=y is not None) for o, y in zip(ops, ys)], case=case_of(j)))
    ck.validate(module, traces, case_of=lambda t, v: t["case"])
    if corrupt:
        ck.selftest_binding(module, traces, corrupt)
    return traces
