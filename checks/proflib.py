"""Drives a StreamingProfiler through the operations of a Profiler behaviour."""
import contextlib
import copy
import io
import random
import sys
import threading
import time as real_time
import types
from collections import namedtuple
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import psutil
from flax.core import FrozenDict
from modlib import KEY, Mismatch

TICK = 1024  # ticks of a second: exact in floating point
MODS = ["a", "b", "m"]
MB = 1024 * 1024
Pair = namedtuple("Pair", "a b")


class Boom(Exception):
    pass


class World:
    """the clock and the memory of the process"""
    def __init__(self):
        self.now = 0
        self.local = threading.local()
        self.yields = False

    def time(self):
        if self.yields:
            real_time.sleep(0)
        return 5000.0 + self.now / TICK

    @property
    def rss(self):
        if self.yields:
            real_time.sleep(0.0001)
        v = getattr(self.local, "rss", 0)
        if self.yields:
            real_time.sleep(0)
        return v * MB

    def tell(self, mb):
        self.local.rss = mb


@contextlib.contextmanager
def surroundings(w, *modules):
    fake = types.SimpleNamespace(time=w.time, perf_counter=w.time, monotonic=w.time, sleep=real_time.sleep)
    proc = types.SimpleNamespace(memory_info=lambda: types.SimpleNamespace(rss=w.rss), cpu_percent=lambda *a: 12.5)
    old = [m.time for m in modules], psutil.Process, psutil.virtual_memory
    for m in modules:
        m.time = fake
    psutil.Process = lambda *a: proc
    psutil.virtual_memory = lambda: types.SimpleNamespace(total=4096 * MB, available=1024 * MB)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        for m, t in zip(modules, old[0]):
            m.time = t
        psutil.Process, psutil.virtual_memory = old[1:]


def frac(x, what="number", scale=1):
    """a float that is the value of a small fraction (times scale)"""
    x = float(x) * scale
    f = Fraction(x).limit_denominator(3000)
    if abs(float(f) - x) > 1e-9 * max(1.0, abs(x)):
        raise Mismatch(f"{what} {x}")
    return [f.numerator, f.denominator]


def whole(x, what="number", scale=1):
    n, d = frac(x, what, scale)
    if d != 1:
        raise Mismatch(f"{what} {x}")
    return n


def data(n, rng):
    """something of n bytes"""
    if n == 0:
        return rng.choice([None, [], {}, "", np.zeros(0)])
    if n == 8 and rng.random() < 0.4:
        return rng.choice([1, 2.5, np.float64(3.0), "eight-by", "éééé"])
    k = rng.choice(["jnp", "np", "list", "tuple", "dict", "frozen", "named", "nested"])
    if k == "jnp":
        return jnp.zeros(n, jnp.uint8)
    if k == "np":
        return np.zeros((n // 8, 4), np.int16) if n % 8 == 0 else np.zeros(n, np.int8)
    a = rng.randint(0, n)
    if k == "named":
        return Pair(data(a, rng), data(n - a, rng))
    x, y = np.zeros(a, np.uint8), jnp.zeros(n - a, jnp.uint8)
    return {"list": [x, y], "tuple": (x, y), "dict": {"x": x, "y": y}, "frozen": FrozenDict({"x": x, "y": {"z": y}}), "nested": {"l": [(x, {"q": None}), y], "s": ""}}[k]


def limit(thr):  # exact where a division is, and else between two ticks
    return (thr + (0.5 if thr % 128 else 0)) * 1000 / TICK


def drive(job):
    from wax.flax.debug import profiler as P

    c, st = job["cfg"], job["style"]
    w, rng = World(), random.Random(st["seed"])
    told, kept, ys = {}, [], []
    with surroundings(w, P):
        p = P.StreamingProfiler(enable_memory_tracking=c["mem"], enable_cpu_tracking=st["cpu"], bottleneck_threshold_ms=limit(c["thr"]),
                                memory_leak_threshold_mb=float(c["leak"]), max_history=c["max"])

        class Fn:
            def init(self, rng, *a):
                return "params", "state"

            def apply(self, params, state, rng, *args, **kw):
                if (params, state, rng, kw) != ({"p": 1}, {"s": 0}, None, {"flag": 3}) or args[0] is not told["in"]:
                    raise Mismatch("arguments")
                w.now += told["t"]
                if told["exc"]:
                    raise Boom("computation")
                return told["out"]

            def __call__(self, *a):
                return ("called", a)

        fn = Fn()
        wrapped = {(m, det): P.profile_streaming(p, m, enable_detailed_tracking=det)(fn) for m in MODS for det in (True, False)}
        f = wrapped["a", True]
        if f.init(None) != fn.init(None) or f(4) != fn(4):
            raise Mismatch("interface")

        def op(o):
            k = o["op"]
            w.tell(o.get("rss", 0))
            if k == "record":
                p.record_metrics(o["mod"], o["t"] / TICK, input_data=data(o["inn"], rng), output_data=data(o["out"], rng), jit_compilation=o["jit"])
            elif k == "block":
                try:
                    with p.start_step(o["mod"]) as ctx:
                        w.now += o["t"]
                        {"": lambda: 0, "on": p.enable, "off": p.disable, "reset": p.reset}[o["mid"]]()
                        if o["jit"]:
                            ctx.set_jit_compilation(True)
                        if o["exc"]:
                            raise Boom("block")
                    if o["exc"]:
                        raise Mismatch("the error is lost")
                except Boom:
                    pass
            elif k == "nest":
                with p.start_step(o["mod"]):
                    w.now += o["t"]
                    w.tell(o["rss2"])
                    with p.start_step(o["mod2"]) as ctx:
                        w.now += o["t2"]
                        ctx.set_jit_compilation(o["jit"])
                    w.tell(o["rss"])
            elif k == "call":
                told.update(t=o["t"], exc=o["exc"], out=data(o["out"], rng))
                told["in"] = data(o["inn"], rng)
                try:
                    r = wrapped[o["mod"], o["det"]].apply({"p": 1}, {"s": 0}, None, told["in"], flag=3)
                    if o["exc"] or r is not told["out"]:
                        raise Mismatch("results")
                except Boom:
                    pass
            elif k == "switch":
                p.enable() if o["to"] else p.disable()
            elif k == "reset":
                p.reset()
            elif k == "wait":
                w.now += o["t"]

        for o in job["ops"]:
            op(o)
            y, res = see(P, p)
            ys.append(y)
            for r, was in kept:
                if plain(r) != was:
                    raise Mismatch("a finished profile changed")
            kept = kept[-4:] + [(res, plain(res))]
    return ys


def plain(r):
    return copy.deepcopy((r.session_duration, r.total_steps, r.metrics, r.execution_stats, r.memory_stats, r.bottlenecks, r.optimization_recommendations))


def stats(d, scale):
    return dict(mean=frac(d["mean"], "mean", scale), median=frac(d["median"], "median", scale), min=whole(d["min"], "min", scale), max=whole(d["max"], "max", scale),
                var=frac((d["std_dev"] * scale) ** 2, "variance"))


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def see(P, p):
    res = p.finalize()
    s = res.get_summary()
    P.create_performance_report(res)
    if not res.metrics:
        if set(s) != {"error"} or res.execution_stats or res.memory_stats:
            raise Mismatch("empty profile")
        T = M = []
        rate, total, alloc, eff, jits = [0, 1], 0, 0, [0, 1], 0
        if res.session_duration:
            rate = frac(res.total_steps / (res.session_duration * TICK))
    else:
        T, M = [stats(res.execution_stats, TICK)], [stats(res.memory_stats, 1)]
        e, m, se = s["execution"], s["memory"], s["session"]
        es, ms = res.execution_stats, res.memory_stats
        for a, b in ((e["avg_time_ms"], es["mean"] * 1000), (e["median_time_ms"], es["median"] * 1000), (e["max_time_ms"], es["max"] * 1000), (e["min_time_ms"], es["min"] * 1000),
                     (e["std_dev_ms"], es["std_dev"] * 1000), (m["peak_usage_mb"], ms["max"]), (m["avg_usage_mb"], ms["mean"])):
            if not near(a, b):
                raise Mismatch(f"summary {a} {b}")
        rate, total, alloc, eff, jits = frac(se["avg_throughput"], "rate", 1 / TICK), whole(e["total_time"], "total", TICK), whole(m["total_allocated"]), frac(m["memory_efficiency"]), s["jit_compilations"]
        if se["total_steps"] != res.total_steps or not near(se["duration_seconds"], res.session_duration) or s["bottlenecks"] != len(res.bottlenecks) or s["recommendations"] != len(res.optimization_recommendations):
            raise Mismatch("summary")
    mods = []
    for name in MODS:
        q = p.get_module_summary(name)
        if not any(r.module_name == name for r in res.metrics):
            if set(q) != {"error"}:
                raise Mismatch("module")
            continue
        ms_ = TICK / 1000
        if q["module_name"] != name:
            raise Mismatch("module")
        mods.append(dict(mod=name, n=q["total_invocations"], total=whole(q["total_time_ms"], "total", ms_), mean=frac(q["avg_time_ms"], "mean", ms_), max=whole(q["max_time_ms"], "max", ms_),
                         min=whole(q["min_time_ms"], "min", ms_), mem=frac(q["avg_memory_mb"]), peak=whole(q["peak_memory_mb"]), jits=q["jit_compilations"]))
    leaks = []
    for q in p.detect_memory_leaks():
        if q["steps_analyzed"] != 10:
            raise Mismatch("leak")
        leaks.append(dict(growth=whole(q["growth_mb"]), **{"from": whole(q["start_memory"]), "to": whole(q["end_memory"])}))
    rec = res.optimization_recommendations
    if p.generate_optimization_recommendations() != rec:
        raise Mismatch("recommendations")
    adv = dict(time=0, alloc=0, jit=0, large=0, mods=[0, 0, 0])
    for r in rec:
        name = next((m for m in MODS if f"'{m}'" in r), None)
        if name:
            adv["mods"][MODS.index(name)] += 1
        else:
            adv[next(k for k, t in (("time", "execution time variance"), ("alloc", "memory allocation"), ("jit", "JIT"), ("large", "input data")) if t in r)] += 1
    y = dict(total=res.total_steps, dur=whole(res.session_duration, "duration", TICK), rate=rate,
             metrics=[dict(step=r.step, mod=r.module_name, t=whole(r.execution_time, "time", TICK), mem=whole(r.memory_usage), delta=whole(r.memory_delta), jit=r.jit_compilation, inn=r.input_size, out=r.output_size) for r in res.metrics],
             times=T, mems=M, sum=total, alloc=alloc, jits=jits, eff=eff,
             slow=[dict(step=b["step"], mod=b["module"], t=whole(b["execution_time_ms"], "time", TICK / 1000), mem=whole(b["memory_usage_mb"]), inn=b["input_size_bytes"], out=b["output_size_bytes"]) for b in res.bottlenecks],
             mods=mods, leaks=leaks, advice=adv)
    return y, res


def concurrent(job):
    """records of several threads: the operations in the order the profiler gave them"""
    from wax.flax.debug import profiler as P

    c = job["cfg"]
    w = World()
    w.yields = True
    old = sys.getswitchinterval()
    errors = []
    with surroundings(w, P):
        p = P.StreamingProfiler(bottleneck_threshold_ms=limit(c["thr"]), memory_leak_threshold_mb=float(c["leak"]), max_history=c["max"])
        lanes = [job["ops"][i::job["style"]["threads"]] for i in range(job["style"]["threads"])]
        go = threading.Barrier(len(lanes))

        def body(lane):
            try:
                go.wait()
                for o in lane:
                    w.tell(o["rss"])
                    p.record_metrics(o["mod"], o["t"] / TICK, np.zeros(o["inn"], np.int8), None, jit_compilation=o["jit"])
            except Exception as e:
                errors.append(repr(e))

        try:
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=body, args=(ln,)) for ln in lanes]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise Mismatch(errors[0])
        w.yields = False
        y, _ = see(P, p)
    by = {o["inn"]: o for o in job["ops"]}  # the size of the input names the operation
    order = [m["inn"] for m in y["metrics"]]
    if sorted(order) != sorted(by):
        raise Mismatch("records")
    pos = {s: i for i, s in enumerate(order)}
    if any(pos[a["inn"]] > pos[b["inn"]] for ln in lanes for a, b in zip(ln, ln[1:])):
        raise Mismatch("program order")
    return dict(ops=[by[i] for i in order], ys=[None] * (len(order) - 1) + [y])


def transforms(job):
    """a transformation decorated with all the tools, in any order, gives the results of the bare one"""
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.debug import debugger as D
    from wax.flax.debug import memory_tracker as M
    from wax.flax.debug import profiler as P
    from wax.flax.modules import EWMA, Buffer

    c, st = job["cfg"], job["style"]
    rng = random.Random(st["seed"])

    def body(x):
        return EWMA(com=2.0)(x), Buffer(maxlen=3)(x)

    bare = streaming_transform_with_state(body)
    d, p = D.StreamingDebugger(), P.StreamingProfiler(max_history=c["max"])
    m = M.MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=2)
    d.add_hook(D.DebugHook("h", condition=D.step_interval(2), action="capture"))
    f = bare
    tools = [D.debug_streaming(d), P.profile_streaming(p, "m"), M.track_memory_usage(m, "m")]
    rng.shuffle(tools)
    for t in tools:
        f = t(f)
    x0 = jnp.zeros(2)
    pa, sa = bare.init(KEY, x0)
    pb, sb = f.init(KEY, x0)

    def alike(a, b):
        return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(np.array_equal(u, v, equal_nan=True) for u, v in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))

    if not alike((pa, sa), (pb, sb)):
        raise Mismatch("init")
    with contextlib.redirect_stdout(io.StringIO()):
        for n, o in enumerate(job["ops"]):
            x = jnp.asarray([o["t"], o["rss"]], float)
            ya, sa = (jax.jit(bare.apply) if st["jit"] else bare.apply)(pa, sa, None, x)
            yb, sb = (jax.jit(f.apply) if st["jit"] else f.apply)(pb, sb, None, x)
            if not alike((ya, sa), (yb, sb)):
                raise Mismatch("results")
            if not st["jit"] and (d.current_step, p.step_count, m.step_count) != (n + 1, n + 1, 2 * n + 2):
                raise Mismatch("counts")
    return []
