"""Drives a MemoryTracker through the operations of a Tracker behaviour."""
import random
import sys
import threading

import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict
from modlib import Mismatch
from proflib import MB, MODS, TICK, Boom, World, data, frac, near, surroundings, whole


def state_of(st, rng):
    """a state of the given sizes"""
    p, b, v, c = (st[k] for k in "pbvc")
    if p == b == c == 0 and rng.random() < 0.5:
        return data(v, rng)
    out = {}
    if p or rng.random() < 0.3:
        out["params"] = rng.choice([lambda: data(p, rng), lambda: {"d": {"kernel": data(p, rng)}}])()
    a = rng.randint(0, v)
    variables = {"Buffer_0": data(b, rng)} if rng.random() < 0.5 else {"x_buffer": {"value": np.zeros(b // 2, np.int8)}, "BUFFER": [jnp.zeros(b - b // 2, jnp.int8)]}
    variables.update({"EWMA_0": {"count": data(a, rng)}, "other": data(v - a, rng)})
    out["state"] = rng.choice([dict, FrozenDict])(variables)
    if c or rng.random() < 0.3:
        out["cache"] = data(c, rng)
    return rng.choice([dict, FrozenDict])(out)


def tracker(M, c, rng):
    return M.MemoryTracker(enable_detailed_tracking=False, enable_jax_tracking=rng.random() < 0.5, enable_gc_monitoring=False, snapshot_interval=c["interval"],
                           leak_detection_threshold_mb=c["thr"] + 0.5, max_snapshots=c["max"])


def drive(job):
    from wax.flax.debug import memory_tracker as M

    c, st = job["cfg"], job["style"]
    w, rng = World(), random.Random(st["seed"])
    told, ys = {}, []
    with surroundings(w, M):
        m = tracker(M, c, rng)

        class Fn:
            def init(self, rng, *a):
                return "params", "state"

            def apply(self, params, state, rng, *args, **kw):
                if (params, state, rng, kw, args) != ({"p": 1}, {"s": 0}, None, {"flag": 3}, (5,)):
                    raise Mismatch("arguments")
                o = told["o"]
                w.now += o["t"]
                w.tell(o["rss2"])
                if o["exc"]:
                    raise Boom("computation")
                return told["out"]

            def __call__(self, *a):
                return ("called", a)

        fn = Fn()
        wrapped = {(n, det): M.track_memory_usage(m, n, detailed_state_analysis=det)(fn) for n in MODS for det in (True, False)}
        f = wrapped["a", True]
        if f.init(None) != fn.init(None) or f(4) != fn(4):
            raise Mismatch("interface")

        def op(o):
            k = o["op"]
            w.tell(o.get("rss", 0))
            if k == "snap":
                s = m.take_snapshot(o["mod"], state=state_of(o["st"], rng) if any(o["st"].values()) else None, **({"force": True} if o["force"] else {}))
                if s is not None and s is not m.snapshots[-1]:
                    raise Mismatch("snapshot")
                return s is not None
            if k == "call":
                told.update(o=o, out=(data(8, rng), state_of(o["st"], rng)) if o["pair"] else rng.choice([3, [1, 2], (1, 2, 3)]))
                try:
                    r = wrapped[o["mod"], o["det"]].apply({"p": 1}, {"s": 0}, None, 5, flag=3)
                    if o["exc"] or r is not told["out"]:
                        raise Mismatch("results")
                except Boom:
                    pass
            elif k == "switch":
                m.enable() if o["to"] else m.disable()
            elif k == "reset":
                m.reset()
            elif k == "wait":
                w.now += o["t"]
            return False

        for o in job["ops"]:
            got = op(o)
            ys.append(see(m, got))
    return ys


def bytes_(x):
    return whole(x, "size", MB)


def see(m, got):
    s = m.get_memory_summary()
    m.generate_memory_report()
    snaps = [dict(step=q.step, mod=q.module_name, rss=whole(q.process_memory_mb), delta=whole(q.memory_delta_mb), state=bytes_(q.state_variables_mb), params=bytes_(q.parameters_mb), buffers=bytes_(q.buffers_mb))
             for q in m.snapshots]
    if any((q.system_memory_mb, q.available_memory_mb) != (4096, 1024) for q in m.snapshots):
        raise Mismatch("system memory")
    leaks = [dict(rate=frac(k.growth_rate_mb_per_step, "rate"), total=whole(k.total_leaked_mb), first=k.first_detected_step, last=k.last_detected_step, severity=k.severity, mods=sorted(k.affected_modules))
             for k in m.detected_leaks]
    if not snaps:
        if set(s) != {"error"}:
            raise Mismatch("empty summary")
        total, dur, sm = m.step_count, whole(m_duration(m), "duration", TICK), []
    else:
        se, cu, stt = s["session"], s["current_usage"], s["statistics"]
        total, dur = se["total_steps"], whole(se["duration_seconds"], "duration", TICK)
        sm = [dict(peak=whole(stt["peak_memory_mb"]), min=whole(stt["min_memory_mb"]), mean=frac(stt["avg_memory_mb"]), growth=whole(stt["total_growth_mb"]))]
        q = m.snapshots[-1]
        if se["total_snapshots"] != len(snaps) or not all(near(cu[k], getattr(q, k)) for k in ("process_memory_mb", "state_variables_mb", "parameters_mb", "buffers_mb")):
            raise Mismatch("summary")
        sv = [k["severity"] for k in leaks]
        if s["leaks"] != dict(total_detected=len(sv), critical_leaks=sv.count("critical"), high_leaks=sv.count("high")):
            raise Mismatch("leaks")
    mods = []
    for name in MODS:
        a = m.get_module_memory_analysis(name)
        if not any(q["mod"] == name for q in snaps):
            if set(a) != {"error"}:
                raise Mismatch("module")
            continue
        u, v = a["memory_usage"], a["state_memory"]
        if a["module_name"] != name:
            raise Mismatch("module")
        mods.append(dict(mod=name, n=a["snapshots_count"], now=whole(u["current_mb"]), peak=whole(u["peak_mb"]), mean=frac(u["avg_mb"]), growth=whole(u["growth_mb"]),
                         state=bytes_(v["current_mb"]), statepeak=bytes_(v["peak_mb"]), statemean=frac(v["avg_mb"], "mean", MB)))
    return dict(total=total, snaps=snaps, dur=dur, got=got, sum=sm, mods=mods, leaks=leaks)


def m_duration(m):
    from wax.flax.debug import memory_tracker as M

    return M.time.time() - m.session_start_time


def concurrent(job):
    """snapshots of several threads: the operations in the order the tracker gave them"""
    from wax.flax.debug import memory_tracker as M

    c = job["cfg"]
    w = World()
    w.yields = True
    old = sys.getswitchinterval()
    errors = []
    with surroundings(w, M):
        m = tracker(M, c, random.Random(0))
        lanes = [job["ops"][i::job["style"]["threads"]] for i in range(job["style"]["threads"])]
        go = threading.Barrier(len(lanes))

        def body(lane):
            try:
                go.wait()
                for o in lane:
                    w.tell(o["rss"])
                    m.take_snapshot(o["mod"], state=np.zeros(o["st"]["v"], np.int8), force=o["force"])
            except Exception as e:
                errors.append(repr(e))

        try:
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=body, args=(ln,)) for ln in lanes]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise Mismatch(errors[0])
        w.yields = False
        y = see(m, job["ops"][0]["force"])
    by = {o["st"]["v"]: o for o in job["ops"]}  # the size of the state names the operation
    order = [s["state"] for s in y["snaps"]]
    if sorted(order) != sorted(by):
        raise Mismatch("snapshots")
    pos = {s: i for i, s in enumerate(order)}
    if any(pos[a["st"]["v"]] > pos[b["st"]["v"]] for ln in lanes for a, b in zip(ln, ln[1:])):
        raise Mismatch("program order")
    return dict(ops=[by[i] for i in order], ys=[None] * (len(order) - 1) + [y])
