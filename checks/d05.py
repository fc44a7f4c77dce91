"""D05 pipeline graphs: PipelineGraph.tla bound to the graph renderer and the nested views."""
import json

L, U = ["L"], "_"
NAMES = [["L"], ["L", U, "1"], ["L", U, "10"], ["L1"]]


def flat(tokens):
    return "".join(tokens)


def node(a, kind):
    return dict(op="node", a=a, b=[kind])


def edge(a, b):
    return dict(op="edge", a=a, b=b)


def job(rng, c):
    f = lambda o: dict(op=o["op"], a=flat(o["a"]), b=o["b"][0] if o["op"] == "node" else flat(o["b"]))  # noqa: E731
    nest = {flat(p): 0 for p in ()}
    return dict(mods=c["mods"], auto=c["auto"], min=c["min"], pre=[f(o) for o in c["pre"]], post=[f(o) for o in c["post"]],
                how=rng.choice(["flax", "dict", "pair"]), pick=rng.randrange(2), twice=rng.random() < 0.5, **nest)


def text(v):
    """view of the specification -> comparable text, with joined identifiers"""
    return json.dumps(dict(nodes=sorted([flat(n["id"]), n["type"], flat(n["par"]), n["lev"]] for n in v["nodes"]),
                           clus=sorted([c["type"], sorted(map(flat, c["members"]))] for c in v["clus"]),
                           edges=sorted([flat(a), flat(b)] for a, b in v["edges"])))


def drives(ck, js):
    chunks = [js[a:a + 16] for a in range(0, len(js), 16)]
    out = []
    for status, v in ck.pmap("graphlib:drives", chunks, chunk=1):
        if status != "ok":
            raise RuntimeError(v)
        out += v
    return out


def case(j):
    return dict(how=j["how"], auto=j["auto"])


def run(ck):
    rng, th = ck.rng, ck.thorough
    inv = ["EachOnce", "Forest", "Inside", "Followed", "Whole1", "Kept"]
    none = "={<<>>}"
    base = dict(KidNames=[["x"]], KidKinds="={}", MaxTop=3, MaxKids=0, Pres=none, Posts=none, Names=NAMES)
    behs = []
    # many modules side by side
    behs += ck.tlc("MCPipelineGraph", dict(base, Kinds="={\"dense\", \"ewma\", \"buffer\", \"module\", \"none\"}", Mins="={1, 2, 3}"), spec="Spec", invariants=inv, never=("AddOne",)).get("B")
    # modules within modules
    behs += ck.tlc("MCPipelineGraph", dict(base, Names=NAMES[:2] if not th else NAMES[:3], Kinds="={\"dense\", \"module\", \"none\"}", KidNames=[["x"], ["x", U, "1"]],
                                           KidKinds="={\"module\", \"ewma\"}", MaxTop=2, MaxKids=2, Mins="={2}"), spec="Spec", invariants=inv, never=("AddOne",)).get("B")
    # and what the user adds
    ops = [node(["L"], "ewma"), node(["q"], "dense"), node(["q"], "buffer"), edge(["q"], ["L"]), edge(["L"], ["L"]), node(["main"], "module")]
    from vlib import tla
    seqs = "={" + ", ".join(["<<>>", *(tla([o]) for o in ops), *(tla([a, b]) for a in ops for b in ops)]) + "}"
    behs += ck.tlc("MCPipelineGraph", dict(base, Names=NAMES[:2], Kinds="={\"dense\", \"module\"}", KidKinds="={\"ewma\"}", MaxTop=2, MaxKids=1, Mins="={2}", Pres="={<<>>, " + tla([ops[0], ops[3]]) + "}",
                                           Posts=seqs), spec="Spec", invariants=inv).get("B")
    groups = {}
    for b in behs:
        groups.setdefault(json.dumps(b["c"], sort_keys=True), []).append(b)
    ck.notes["pipelines_enumerated"] = len(groups)
    keys = sorted(groups)
    keys = keys if th else rng.sample(keys, min(len(keys), 1600))
    js = [job(rng, groups[k][0]["c"]) for k in keys]
    for j, k, (status, r) in zip(js, keys, drives(ck, js)):
        g = groups[k]
        if status != "ok":
            ck.violation("Consistent" if r.startswith("Shown") else "Raises", case(j), dict(job=j, error=r))
            continue
        ck.replayed(1, len(j["mods"]) + 1)
        v = dict(r["v"], nodes=[dict(n, par=n["par"] or "") for n in r["v"]["nodes"]])
        if text(v) not in [text(b["v"]) for b in g]:
            ck.violation("Nested", case(j), dict(job=j, want=text(g[0]["v"]), got=text(v)))
        d = g[0]["d"]
        want = dict(nodes=[dict(id=flat(n["id"]), kind=n["kind"]) for n in d["nodes"]], edges=[[flat(a), flat(b)] for a, b in d["edges"]])
        if r["d"] != want:
            ck.violation("Rendered", case(j), dict(job=j, want=want, got=r["d"]))
    ck.sample(dict(pipeline=js[0], view=text(groups[keys[0]][0]["v"])))

    # ---- larger pipelines
    cs = []
    for _ in range(300 if th else 70):
        mods = []

        def grow(path, depth, n):
            pool = [["L", U, str(i)] for i in range(13)] + [["A"], ["A", U, "B"], ["A", U, "B", U, "C"], ["AB"]]
            for nm in sorted(rng.sample(pool, n)):
                kind = rng.choice(["dense", "ewma", "module", "module", "none"] + (["buffer"] if depth == 2 or not path else []))
                mods.append(dict(path=[*path, nm], kind=kind))
                if depth < 2 and kind != "buffer" and rng.random() < 0.4 and len(mods) < 24:
                    grow([*path, nm], depth + 1, rng.randint(1, 3))

        grow([], 0, rng.randint(1, 9))
        # a parent of a buffer is not told from a buffer by its parameters
        bad = [m["path"] for m in mods if m["kind"] == "buffer"]
        for m in mods:
            if m["kind"] != "none" and any(len(b) > len(m["path"]) and b[: len(m["path"])] == m["path"] for b in bad):
                m["kind"] = "none"
        post = [rng.choice([node(rng.choice(mods)["path"][0], rng.choice(["dense", "ewma"])), edge(["k"], ["main"]), node(["k"], "module")]) for _ in range(rng.randint(0, 3))]
        cs.append(dict(mods=mods, auto=rng.random() < 0.7, min=rng.randint(1, 4), pre=[], post=post))
    js = [job(rng, c) for c in cs]
    traces = []
    for c, j, (status, r) in zip(cs, js, drives(ck, js)):
        if status != "ok":
            ck.violation("Consistent" if r.startswith("Shown") else "Raises", case(j), dict(job=j, error=r))
            continue
        tok = {"main": ["main"], "k": ["k"], None: []}
        for m in c["mods"]:
            tok[".".join(map(flat, m["path"]))] = [t for n, p in enumerate(m["path"]) for t in ([] if n == 0 else ["."]) + p]
        t = lambda s: tok.get(s, ["?", str(s)])  # noqa: E731
        v, d = r["v"], r["d"]
        ev = [dict(e="parent", p=t(n["par"])) for n in v["nodes"]]
        ev.append(dict(e="view", nodes=[dict(n, id=t(n["id"]), par=t(n["par"])) for n in v["nodes"]],
                       clus=[dict(type=k["type"], members=[t(m) for m in k["members"]]) for k in v["clus"]], edges=[[t(a), t(b)] for a, b in v["edges"]]))
        ev.append(dict(e="canvas", nodes=[dict(n, id=t(n["id"])) for n in d["nodes"]], edges=[[t(a), t(b)] for a, b in d["edges"]]))
        traces.append(dict(cfg=c, ev=ev, job=j))
    ck.validate("TracePipelineGraph", traces, case_of=lambda t, v: case(t["job"]))

    def corrupt(t):
        t["ev"][-2]["nodes"][0]["lev"] += 1
        return dict(cfg=t["cfg"], ev=t["ev"])

    ck.selftest_binding("TracePipelineGraph", traces, corrupt)
    ck.assumptions.append("names without dots, quotes or the names of known module types; kinds are told by the known parameter names")
