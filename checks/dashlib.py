"""Drives an InteractiveDashboard (with a stand-in for the web framework) through the operations of a Dashboard behaviour."""
import json
import random
import re
import types
import warnings

import jax.numpy as jnp
import numpy as np
from modlib import Mismatch
from proflib import TICK, World, frac, near, surroundings

IDS, MODS, NO = ["a", "ab"], ["m", "n"], -1
TWO = ["execution_time", "memory_usage"]


def value(x):
    t = x["t"]
    if t in ("np", "jnp"):
        n = int(np.prod(x["dims"])) if x["dims"] else 1
        a = (x["v"] + 2 * np.arange(n)).astype(np.int32).reshape(x["dims"])
        return jnp.asarray(a) if t == "jnp" else a
    if t in ("list", "tuple"):
        return (list if t == "list" else tuple)(value(i) for i in x["items"])
    if t == "dict":
        return {k: value(i) for k, i in zip(x["keys"], x["items"])}
    return {"int": lambda v: v, "float": lambda v: v + 0.5, "bool": bool, "str": lambda v: f"s{v}"}.get(t, lambda v: None)(x["v"])


class Web:
    """stands for flask and flask_socketio"""
    def __init__(self):
        self.routes, self.handlers, self.events, self.reply = {}, {}, [], []
        self.sid = None
        web = self

        class Flask:
            def __init__(self, *a, **k):
                self.config = {}

            def route(self, path, **k):
                return lambda f: web.routes.setdefault(path, f)

        class SocketIO:
            def __init__(self, app, **k):
                pass

            def on(self, name):
                return lambda f: web.handlers.setdefault(name, f)

            def emit(self, name, payload):
                web.events.append((name, payload))

        self.Flask, self.SocketIO = Flask, SocketIO
        self.request = types.SimpleNamespace(sid=None)

    def emit(self, name, payload):
        self.reply.append((name, payload))

    def get(self, path, *a):
        r = self.routes[path](*a)
        return r if isinstance(r, tuple) else (r, 200)


def drive(job):
    from wax.flax.visualization import data_flow_visualizer as F
    from wax.flax.visualization import interactive_dashboard as M

    c, st = job["cfg"], job["style"]
    w, rng = World(), random.Random(st["seed"])
    web = Web() if c["web"] else None
    old = {k: getattr(M, k) for k in ("Flask", "SocketIO", "jsonify", "request", "emit", "HAS_FLASK")}
    try:
        if web:
            M.Flask, M.SocketIO, M.jsonify, M.request, M.emit, M.HAS_FLASK = web.Flask, web.SocketIO, (lambda x: x), web.request, web.emit, True
        with surroundings(w, M, F), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            conf = M.DashboardConfig(max_data_points=c["max"], performance_threshold_ms=c["slow"], memory_threshold_mb=c["big"], enable_alerts=c["alerts"])
            k = 0
            if job["ops"][0]["op"] == "reg" and rng.random() < 0.5:
                d = M.create_pipeline_dashboard({job["ops"][0]["id"]: (abs, 1)}, conf, start_server=False)
                k = 1
            else:
                d = M.InteractiveDashboard(conf)
            ys = []
            for i, o in enumerate(job["ops"]):
                if web:
                    web.events.clear()
                    web.reply.clear()
                got = "" if i < k else op(d, web, w, F, o)
                ys.append(see(d, web, w, got))
        return ys
    finally:
        for k, v in old.items():
            setattr(M, k, v)


def op(d, web, w, F, o):
    k, i = o["op"], o.get("id")
    if k == "reg":
        d.register_pipeline(i, abs, 1)
    elif k in ("rec", "raw", "burst"):
        meta = {} if o["ms"] == NO else {"execution_time_ms": o["ms"]}
        if o["mem"] != NO:
            meta["memory_usage_mb"] = o["mem"]
        meta = meta or None
        if k == "burst":
            for n in range(o["n"], 0, -1):
                d.record_pipeline_data(i, o["mod"], o["type"], value(dict(o["val"], v=o["val"]["v"] + n)), meta)
                w.now += 1
        elif k == "raw":
            d.state.data_trackers[i].record_data(o["mod"], o["type"], value(o["val"]), meta)
        else:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                d.record_pipeline_data(i, o["mod"], o["type"], value(o["val"]), meta)
            return "warned" if ws else ""
    elif k == "step":
        if o["raw"]:
            d.state.data_trackers[i].step()
        else:
            d.step_pipeline(i)
    elif k == "clear":
        d.state.data_trackers[i].clear_history()
    elif k == "connect":
        if not web:
            d.state.connected_clients.add(o["c"]) if o["on"] else d.state.connected_clients.discard(o["c"])
            return "status" if o["on"] else ""
        web.request.sid = o["c"]
        web.handlers["connect" if o["on"] else "disconnect"]()
        return web.reply[0][0] if web.reply else ""
    elif k == "sub":
        if not web:
            return "pipeline_subscribed" if i in d.state.active_pipelines else "error"
        web.handlers["subscribe_pipeline"]({"pipeline_id": i})
        [(name, payload)] = web.reply
        if i not in str(payload):
            raise Mismatch("subscription")
        return name
    elif k == "wait":
        w.now += o["t"]
    elif k == "draw":
        return draw(d, F, o)
    return ""


def draw(d, F, o):
    t = d.state.data_trackers[o["id"]]
    if o["how"] == "text":
        txt = F.visualize_streaming_data(t, backend="text")
        rows = txt.splitlines()
        if "No data points recorded yet" in txt:
            return "nothing"
        fact = dict(re.match(r"([^:]+): (.*)", r).groups() for r in rows if re.match(r"[^:|]+: ", r))
        lines = [[p.strip() for p in r.split("|")] for r in rows if "|" in r]
        lines = ["|".join([ln[0].split()[-1], ln[1], ln[2], re.sub(r"array\((.*?),?\)", r"array[\1]", ln[3])]) for ln in lines]
        return ";".join([fact["Active modules"], ", ".join(sorted(fact["Data types"].split(", "))), fact["Total steps"], fact["Recent points"], ", ".join(lines)])
    import matplotlib.pyplot as plt

    if o["how"] == "anim":
        import os
        import tempfile

        with tempfile.TemporaryDirectory() as tmp:
            F.create_flow_animation(t, duration=0.2, fps=10, output_path=os.path.join(tmp, "x.gif"))
        plt.close("all")
    try:
        v = F.DataFlowVisualizer(backend="matplotlib", max_points=o["max"], figure_size=(4, 3))
        v.attach_tracker(t)
        fig = v.create_streaming_plot()
        v.update_plot()
        v.update_plot()  # drawing again changes nothing
        ax = fig.axes

        def curves(a, scale):
            out = {}
            for ln in a.get_lines():
                out.setdefault(ln.get_label(), [])
                out[ln.get_label()] += [f"{whole(x)}:{whole(y * scale)}" for x, y in zip(ln.get_xdata(), ln.get_ydata())]
            return out

        nums, sizes = curves(ax[0], 2), curves(ax[1], 1)
        names = [q.get_text() for q in ax[2].get_yticklabels()]
        seen = {m: [] for m in MODS}
        for col in ax[2].collections:
            [[x, y]] = col.get_offsets()
            color = tuple(col.get_facecolor()[0][:3])
            seen[names[int(y)]].append(f"{whole(x * TICK)}" + ("input" if color == (1, 0, 0) else "output" if color == (0, 0, 1) else "state"))
        return ", ".join(f"{m}={', '.join(nums.get(m, []))}/{', '.join(sizes.get(m, []))}/{', '.join(seen[m])}" for m in MODS)
    finally:
        plt.close("all")


def whole(x):
    if abs(x - round(float(x))) > 1e-6:
        raise Mismatch(f"number {x}")
    return round(float(x))


def ticks(t):
    return whole((t - 5000) * TICK)


def text(v):
    return json.dumps(plain(v))


def plain(v):
    if isinstance(v, dict):
        return {k: plain(q) for k, q in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(q) for q in v]
    return round(v, 3) if isinstance(v, float) else v


def alert(a):
    v = re.search(r"([0-9.]+)(ms|MB)", a["message"]).group(1)
    if a["severity"] != "warning":
        raise Mismatch("severity")
    return dict(type=a["type"], id=a["pipeline_id"], at=ticks(a["timestamp"]), value=whole(float(v)))


def see(d, web, w, got):
    s = d.state
    if web:
        p, code = web.get("/api/pipelines")
        ids = p["pipelines"]
        if code != 200 or p["count"] != len(ids):
            raise Mismatch("pipelines")
        for i in IDS + ["b"]:
            g, code = web.get("/api/pipeline/<pipeline_id>/graph", i)
            if (code == 200) != (i in ids) or (i in ids and g["nodes"][0]["name"] != i):
                raise Mismatch("graph")
            if (web.get("/api/pipeline/<pipeline_id>/data", i)[1] == 200) != (i in ids):
                raise Mismatch("data")
        if d.config.title not in web.get("/")[0]:
            raise Mismatch("page")
    else:
        ids = list(s.active_pipelines)
    pipes = []
    for i in ids:
        t = s.data_trackers[i]
        rec = t.get_recent_data(100)
        if web:
            p, code = web.get("/api/pipeline/<pipeline_id>/data", i)
            rows, steps = p["data"], p["total_steps"]
            if p["pipeline_id"] != i:
                raise Mismatch("pipeline")
        else:
            rows = [dict(timestamp=q.timestamp, step=q.step, module_name=q.module_name, data_type=q.data_type, value=d._serialize_value(q.value), shape=q.shape, metadata=q.metadata) for q in rec]
            steps = t.step_count
        for n in (0, 1, 3):
            if [id(q) for q in t.get_recent_data(n)] != [id(q) for q in rec[max(0, len(rec) - n):]]:
                raise Mismatch("recent data")
        mods = []
        for m in MODS:
            h = t.get_module_history(m)
            if any(q.module_name != m for q in h):
                raise Mismatch("module")
            for ty in ("input", "output", "state"):
                if [id(q) for q in t.get_module_history(m, ty)] != [id(q) for q in h if q.data_type == ty]:
                    raise Mismatch("module history")
            mods.append([[q.step, whole(q.timestamp * TICK)] for q in h])
        data = []
        for r in rows:
            meta = r["metadata"]
            if not set(meta) <= {"execution_time_ms", "memory_usage_mb"}:
                raise Mismatch("metadata")
            data.append(dict(step=r["step"], mod=r["module_name"], type=r["data_type"], ts=whole(r["timestamp"] * TICK), val=text(r["value"]), shape=text(list(r["shape"])),
                             ms=meta.get("execution_time_ms", NO), mem=meta.get("memory_usage_mb", NO)))
        pipes.append(dict(id=i, calls=s.active_pipelines[i]["total_calls"], steps=steps, data=data, mods=mods))
    if web:
        perf = web.get("/api/performance")[0]
    else:
        perf = {k: dict(values=list(v)[-50:], current=v[-1], average=sum(list(v)[-50:]) / len(list(v)[-50:])) for k, v in s.performance_metrics.items() if v}
    for k, v in perf.items():
        if v["current"] != v["values"][-1] or not near(v["average"], sum(v["values"]) / len(v["values"])):
            raise Mismatch("metric")
    if not set(perf) <= {f"{i}_{k}" for i in IDS for k in TWO} | {"global_throughput"}:
        raise Mismatch("metrics")

    def metric(name):
        v = perf.get(name)
        return dict(n=len(v["values"]), values=v["values"], mean=frac(v["average"])) if v else dict(n=0, values=[], mean=[0, 0])

    if web:
        a = web.get("/api/alerts")[0]
        alerts = a["alerts"]
        if a["count"] != len(alerts):
            raise Mismatch("alerts")
    else:
        alerts = list(s.alerts)
    sent = []
    for name, e in (web.events if web else []):
        if name == "alert":
            q = alert(e)
            sent.append(dict(kind="alert", id=q["id"], mod="", type=q["type"], val="", step=0, value=q["value"], at=q["at"]))
        elif name == "pipeline_data_update":
            sent.append(dict(kind="point", id=e["pipeline_id"], mod=e["module_name"], type=e["data_type"], val=text(e["value"]), step=e["step"], value=0, at=ticks(e["timestamp"])))
        else:
            raise Mismatch(f"event {name}")
    return dict(pipes=pipes, exec=[metric(f"{i}_execution_time") for i in IDS], mem=[metric(f"{i}_memory_usage") for i in IDS],
                thru=[ticks(t) for t in perf.get("global_throughput", dict(values=[]))["values"]], alerts=[alert(a) for a in alerts], sent=sent, got=got)
