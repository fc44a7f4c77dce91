"""Builds pipelines (as Flax modules or as objects with init and apply), has them analysed
and rendered, and reads the nodes and links back from everything that is shown."""
import json
import re
import warnings

import flax.linen as nn
import jax.numpy as jnp

warnings.filterwarnings("ignore")
PARAMS = dict(dense=["kernel", "weight"], ewma=["alpha", "logcom"], buffer=["maxlen"], module=["scale", "bias"], none=[])
TYPES = dict(dense="Dense", ewma="EWMA", buffer="Buffer", module="Module", function="StreamingFunction")
KINDS = {v: k for k, v in TYPES.items()}


class Shown(Exception):
    pass


def tree(mods, pick, wrap):
    """nested dict of parameters"""
    root = {}
    for m in mods:
        d = root
        for n in m["path"][:-1]:
            d = d["".join(n)]
        d["".join(m["path"][-1])] = {p: wrap(p) for p in PARAMS[m["kind"]][pick % 2:][:1] or PARAMS[m["kind"]][:1]}
    return root


class Level(nn.Module):
    spec: tuple

    @nn.compact
    def __call__(self, x):
        for n, v in self.spec:
            if isinstance(v, tuple):
                x = Level(v, name=n)(x)
            else:
                x = x + self.param(n, lambda k: jnp.ones(()))
        return x


def spec_of(d):
    return tuple((k, spec_of(v) if isinstance(v, dict) else 0) for k, v in d.items())


class Fake:
    def __init__(self, params, how):
        self.params, self.how = params, how

    def init(self, key, *x):
        return (self.params, {"s": 1}) if self.how == "pair" else {"params": self.params, "state": {}}

    def apply(self, v, *x):
        return x[0]


def pipeline(mods, how, pick):
    if how == "flax":
        return Level(spec_of(tree(mods, pick, lambda p: 0)))
    return Fake(tree(mods, pick, lambda p: 3 if p == "maxlen" else jnp.ones(2)), how)


def dot_items(text):
    """statements of a DOT text -> (nodes in order, edges in order, {cluster: nodes})"""
    name = r'("(?:[^"\\]|\\.)*"|[\w.\-]+)'
    nodes, edges, stack, inside = [], [], [], {}
    bare = lambda s: s[1:-1] if s.startswith('"') else s  # noqa: E731
    for line in text.splitlines():
        s = line.strip()
        if m := re.match(rf"subgraph {name} \{{", s):
            stack.append(bare(m[1]))
        elif s == "}" and stack:
            stack.pop()
        elif m := re.match(rf"{name} -> {name}", s):
            edges.append((bare(m[1]), bare(m[2])))
        elif (m := re.match(rf"{name} \[", s)) and bare(m[1]) not in ("node", "edge", "graph"):
            nodes.append((bare(m[1]), s))
            for c in stack[-1:]:
                inside.setdefault(c, []).append(bare(m[1]))
    return nodes, edges, inside


def data_of(html, want):
    """the first JSON value of the page that is of the expected kind"""
    dec = json.JSONDecoder()
    for m in re.finditer(r"[\[{]", html):
        try:
            v, _ = dec.raw_decode(html[m.start():])
        except ValueError:
            continue
        if want(v):
            return v
    raise Shown("no data in the page")


def agree(what, got, want):
    if got != want:
        raise Shown(f"{what}: {got} instead of {want}")


def rows(nodes, links):
    return sorted(map(tuple, nodes)), sorted(map(tuple, links))


def nested(item, fn, x):
    """the nested view of every backend and of the summary, that must agree"""
    from wax.flax.visualization.nested_graph_viz import NestedGraphConfig, NestedGraphVisualizer, visualize_nested_graph

    conf = NestedGraphConfig(auto_cluster=item["auto"], cluster_min_nodes=item["min"])
    v = NestedGraphVisualizer(conf)
    if item["twice"]:  # another function was shown before
        v.get_hierarchy_summary(pipeline([dict(path=[["zz"]], kind="dense"), dict(path=[["zz"], ["u"]], kind="ewma"), dict(path=[["yy"]], kind="dense")], "dict", 0), x)
    s = v.get_hierarchy_summary(fn, x)
    h = s["hierarchy"]
    nodes = [(k, n.node_type, n.parent, n.level) for k, n in h.items()]
    links = [(n.node_id, c) for n in h.values() for c in n.children]
    agree("identifiers", [n.node_id for n in h.values()], list(h))
    agree("children", sorted(links), sorted((n.parent, k) for k, n in h.items() if n.parent is not None))
    agree("leaves", [k for k, n in h.items() if n.is_leaf()], [k for k in h if not any(n.parent == k for n in h.values())])
    agree("total", s["total_nodes"], len(h))
    agree("depth", s["max_hierarchy_level"], max(n.level for n in h.values()))
    for key, f in (("node_types", lambda n: n.node_type), ("nodes_per_level", lambda n: n.level)):
        agree(key, s[key], {t: sum(f(n) == t for n in h.values()) for t in {f(n) for n in h.values()}})
    show = (lambda b: v.visualize_computation_graph(fn, x, b)) if item["twice"] else (lambda b: visualize_nested_graph(fn, x, b, config=conf))
    cy = data_of(show("cytoscape"), lambda d: isinstance(d, list) and d and isinstance(d[0], dict) and "data" in d[0])
    cn = [e["data"] for e in cy if "source" not in e["data"]]
    ce = [e["data"] for e in cy if "source" in e["data"]]
    agree("cytoscape", rows([(d["id"], d["type"], d.get("parent"), d["level"]) for d in cn], [(d["source"], d["target"]) for d in ce])[1], sorted(links))
    agree("cytoscape nodes", [(d["id"], d["type"], d.get("parent"), d["level"]) for d in cn], nodes)
    d3 = data_of(show("d3"), lambda d: isinstance(d, dict) and "nodes" in d and "links" in d)
    agree("d3 nodes", [(d["id"], d["type"], d["level"]) for d in d3["nodes"]], [(k, t, lv) for k, t, _, lv in nodes])
    agree("d3 links", sorted((d["source"], d["target"]) for d in d3["links"]), sorted(links))
    gn, ge, inside = dot_items(show("graphviz"))
    agree("graphviz nodes", sorted(n for n, _ in gn), sorted(h))
    agree("graphviz links", sorted(ge), sorted(links))
    for k, n in h.items():
        if n.children:
            leaves = [c for c in n.children if not h[c].children]
            agree("graphviz cluster", sorted(inside.get(f"cluster_{k}", [])), sorted([k, *leaves]))
    clusters = {k: n for k, n in h.items() if n.node_type == "cluster"}
    for n in clusters.values():
        agree("members", n.properties["member_count"], len(n.children))
        agree("cluster level", (n.level, n.parent), (0, None))
    return dict(nodes=[dict(id=k, type=t, par=p if p not in clusters else None, lev=lv) for k, t, p, lv in nodes if k not in clusters],
                clus=[dict(type=n.properties["cluster_type"], members=sorted(n.children)) for n in clusters.values()])


def canvas(item, fn, x):
    from wax.flax.visualization.computation_graph import ComputationGraphRenderer, PipelineEdge, PipelineNode, render_pipeline_graph

    def add(r, ops):
        for o in ops:
            if o["op"] == "node":
                q = r.add_node(PipelineNode(id=o["a"], name="n" + o["a"], module_type=TYPES[o["b"]]))
            else:
                q = r.add_edge(PipelineEdge(source=o["a"], target=o["b"], label=o["a"][:1]))
            agree("chaining", q is r, True)

    outs = []
    for f in ("dot", "html"):
        if not item["pre"] and not item["post"] and item["twice"]:
            outs.append(render_pipeline_graph(fn, x, format=f))
            continue
        r = ComputationGraphRenderer(output_format=f, include_parameters=item["twice"])
        add(r, item["pre"])
        agree("chaining", r.analyze_streaming_function(fn, x) is r, True)
        an = [(e.source, e.target) for e in r.edges]
        add(r, item["post"])
        agree("edges kept", [(e.source, e.target) for e in r.edges][: len(an)], an)
        outs.append(r.render())
    nodes, edges, _ = dot_items(outs[0])
    typ = lambda s: next((k for t, k in KINDS.items() if f"({t})" in s), "?")  # noqa: E731
    dot = dict(nodes=[dict(id=n, kind=typ(s)) for n, s in nodes], edges=[list(e) for e in edges])
    page = outs[1]
    got = [(m[2].strip(), KINDS.get(m[1], "?")) for m in re.finditer(r"</strong> \((\w+)\)\s*<br>ID: ([^\n<]*)", page)]
    ed = [[a.strip(), b.split("[")[0].strip()] for a, b in re.findall(r'class="edge">([^→<]*)→([^<]*)<', page)]
    agree("page", (got, ed), ([(n["id"], n["kind"]) for n in dot["nodes"]], dot["edges"]))
    for what, n in (("Nodes", len(got)), ("Edges", len(ed))):
        agree("count", f"{what} ({n})" in page, True)
    return dot


def drive(item):
    """item: mods, auto, min, pre, post, how, pick, twice -> nested view and drawn graph"""
    fn = pipeline(item["mods"], item["how"], item["pick"])
    x = jnp.ones(3)
    from wax.flax.visualization.computation_graph import ComputationGraphRenderer

    r = ComputationGraphRenderer().analyze_streaming_function(fn, x)
    v = nested(item, fn, x)
    v["edges"] = [[e.source, e.target] for e in r.edges]
    agree("order", [n["id"] for n in v["nodes"]], list(r.nodes))
    return dict(v=v, d=canvas(item, fn, x))


def drives(items):
    from vlib import _call

    return [_call(("graphlib:drive", it)) for it in items]
