"""Drives a StreamingDebugger through the operations of a Debugger behaviour."""
import builtins
import contextlib
import io
import threading
import time as real_time
import types
from collections import namedtuple

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict
from modlib import KEY, Mismatch

NO = -99
Pair = namedtuple("Pair", "v w")


class Boom(Exception):
    pass


class Clock:
    def __init__(self):
        self.now = 0.0

    def time(self):
        return self.now


@contextlib.contextmanager
def surroundings(clock, answers, *modules):
    """a clock of our own, answers at the prompt, and silence"""
    fake = types.SimpleNamespace(time=clock.time, strftime=real_time.strftime, localtime=real_time.localtime, sleep=real_time.sleep)
    old = [m.time for m in modules]
    inp = builtins.input
    for m in modules:
        m.time = fake
    builtins.input = lambda *a: answers.pop(0) if answers else "c"
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        builtins.input = inp
        for m, t in zip(modules, old):
            m.time = t


# ---- the value s of a state, in the forms a state may take
def make_state(form, s):
    a = np.array([float(s)])
    if form == "np":
        return ({"v": a} if s != NO else {"w": a}), [a]
    if form == "jnp":
        return {("v" if s != NO else "w"): jnp.asarray(a)}, []
    if form == "scalar":
        return {("v" if s != NO else "w"): float(s)}, []
    if form == "frozen":
        return FrozenDict({("v" if s != NO else "w"): jnp.asarray(a)}), []
    if form == "nested":
        b = a.copy()
        return {"in": {"v": a, "l": [b, (jnp.asarray(b), "text")]}}, [a, b]
    if form == "named":
        return Pair(a, {"w": jnp.asarray(a)}), [a]
    if form == "bare":
        return a, [a]
    if form == "flax":
        return {"params": {"d": {"kernel": jnp.zeros((2, 3))}}, "state": {"v": a}}, [a]
    raise ValueError(form)


def read(form, st, hist=False):
    """the value of a recorded state, which must have kept its form"""
    def val(a, kind):
        if not isinstance(a, kind) or np.shape(a) not in ((1,), ()):
            raise Mismatch(f"state {a!r}")
        return int(np.asarray(a).reshape(-1)[0])

    def need(c, what=None):
        if not c:
            raise Mismatch(f"state {what if what is not None else st!r}")

    if form in ("np", "jnp", "scalar", "frozen"):
        need((isinstance(st, FrozenDict) if form == "frozen" else isinstance(st, dict)) and len(st) == 1)
        (k, a), = st.items()
        v = val(a, {"np": np.ndarray, "scalar": float}.get(form, jnp.ndarray))
        need((k == "v") == (v != NO))
        return v
    if form == "nested":
        need(set(st) == {"in"} and set(st["in"]) == {"v", "l"})
        b, (c, t) = st["in"]["l"]
        v = val(st["in"]["v"], np.ndarray)
        need(val(b, np.ndarray) == v and val(c, jnp.ndarray) == v and t == "text")
        return v
    if form == "named":
        need(type(st) is Pair)
        v = val(st.v, np.ndarray)
        need(val(st.w["w"], jnp.ndarray) == v)
        return v
    if form == "bare":
        return val(st, np.ndarray)
    if form == "flax":
        if hist:
            need(st.keys() == {"params_shapes", "state_values"} and st["params_shapes"] == {"d": {"kernel": (2, 3)}})
            return val(st["state_values"]["v"], np.ndarray)
        need(st.keys() == {"params", "state"})
        return val(st["state"]["v"], np.ndarray)
    if form == "wax":
        return val(st["state"]["Keep_0"]["v"], jnp.ndarray)
    raise ValueError(form)


def make_input(form, v):
    if v == NO:  # not a number
        a = np.array([1.0, 2.0])
        return ({"x": a} if form == "dict" else a), [a]
    if form == "float":
        return float(v), []
    if form == "dict":
        return {"x": float(v), "z": 1e9}, []
    a = np.array(float(v))
    return a, [a]


def read_input(form, i):
    if form == "dict":
        i = i["x"]
    if np.shape(i) == (2,):
        if list(i) != [1.0, 2.0]:
            raise Mismatch(f"input {i}")
        return NO
    if np.shape(i) != () or int(i) != i:
        raise Mismatch(f"input {i}")
    return int(i)


class Keep(nn.Module):
    @nn.compact
    def __call__(self, x, s):
        v = self.variable("state", "v", lambda: jnp.zeros((1,)))
        v.value = jnp.reshape(s, (1,))
        return x + 1000


def hook_of(o, form):
    from wax.flax.debug import debugger as D

    def boom(*a):
        raise Boom("condition")

    return {"above": lambda: D.value_threshold(float(o["p"]), "x") if form == "dict" else D.value_threshold(float(o["p"])), "every": lambda: D.step_interval(o["p"]),
            "change": lambda: D.state_change_detector("v", tolerance=o["p"] + 0.5), "fails": lambda: boom, "never": lambda: None}[o["cond"]]()


def key(o):
    return {"hook": "", "state": "state_change_", "break": "breakpoint_", "perf": "perf_"}[o["via"]] + o["base"]


def drive(job):
    from wax.flax.debug import debugger as D

    cfg, st = job["cfg"], job["style"]
    sform, iform, mode = st["state"], st["input"], st["mode"]
    clock, answers = Clock(), []
    d = D.StreamingDebugger(enable_state_tracking=cfg["track"], enable_performance_tracking=cfg["perf"], max_history=cfg["max"])
    told = {}

    class Fn:
        """a transformation whose results and durations are given"""
        def init(self, rng, *a):
            return {"p": 1}, {"s": 0}

        def apply(self, params, state, rng, *args, **kw):
            if (params, state, rng, kw) != ({"p": 1}, {"s": 0}, None, {"flag": 3}) or args[0] is not told["input"]:
                raise Mismatch("arguments")
            if told.get("raise"):
                raise Boom("computation")
            clock.now += max(0, told["t"]) / 1000
            return told["result"]

        def __call__(self, *a):
            return ("called", a)

    if mode == "wax":
        from wax.flax.core.streaming_transforms import streaming_transform_with_state

        def body(x, s):
            clock.now += max(0, told["t"]) / 1000
            if told.get("raise"):
                raise Boom("computation")
            return Keep()(x, s)

        fn = streaming_transform_with_state(body)
        told.update(t=0)
        p, s0 = fn.init(KEY, jnp.zeros(()), jnp.zeros(()))
        told["live"] = s0
    else:
        fn = Fn()
    if mode != "direct":
        timed = D.debug_streaming(d, **({"module_name": "m"} if st["named"] else {}))(fn)
        untimed = D.debug_streaming(d, module_name="m", enable_timing=False)(fn)
        if mode == "fn" and (timed.init(None) != fn.init(None) or timed(4) != fn(4)):
            raise Mismatch("interface")
    mutable = []

    def step(o):
        t = o["t"]
        if mode == "wax":
            x = jnp.asarray(float(o["v"])), jnp.asarray(float(o["s"]))
            told.update(t=t, **{"raise": False})
            w = timed if t != NO else untimed
            bare = fn.apply(p, told["live"], None, *x)
            clock.now -= max(0, t) / 1000
            got = w.apply(p, told["live"], None, *x)
            if not jax.tree_util.tree_all(jax.tree_util.tree_map(lambda a, b: np.array_equal(a, b), bare, got)) or jax.tree_util.tree_structure(bare) != jax.tree_util.tree_structure(got):
                raise Mismatch("results")
            told["live"] = got[1]
            return
        state, m1 = make_state(sform, o["s"])
        inp, m2 = make_input(iform, o["v"])
        out = np.array(float(o["v"]) + 1000)
        mutable[:] = m1 + m2 + [out]
        if mode == "direct":
            d.step("m", state, inp, out, **({"execution_time": t / 1000} if t != NO else {}))
        else:
            res = (out, state)
            told.update(t=t, result=res, input=inp, **{"raise": False})
            w = timed if t != NO else untimed
            if w.apply({"p": 1}, {"s": 0}, None, inp, flag=3) is not res:
                raise Mismatch("results")

    def op(o):
        k = o["op"]
        if k == "step":
            answers[:] = ["q"] if o["quit"] else ["s", "i", "o", "h", "zzz", " C "]
            try:
                step(o)
            except KeyboardInterrupt:
                return True
            return False
        if k == "switch":
            d.enable() if o["to"] else d.disable()
        elif k == "add":
            b = o["base"]
            if o["via"] == "perf":
                r = d.add_performance_monitor(b, threshold_ms=o["p"] + 0.5)
            elif o["via"] == "break":
                r = d.add_breakpoint(b, hook_of(o, iform))
            elif o["via"] == "state":
                r = d.add_state_change_hook(b, hook_of(o, iform))
            else:
                r = d.add_hook(D.DebugHook(b, condition=hook_of(o, iform), action=o["act"], max_events=o["max"]))
            if r is not d:
                raise Mismatch("chaining")
        elif k == "remove":
            d.remove_hook(key(o))
        elif k == "hook":
            if key(o) in d.hooks:
                d.hooks[key(o)].enabled = o["to"]
        elif k == "clear":
            d.clear_history()
        elif k == "mutate":
            for a in mutable:
                a += 7
        elif k == "raise" and mode != "direct":
            told.update({"raise": True, "t": 5, "input": 1.0})
            try:
                timed.apply({"p": 1}, {"s": 0}, None, 1.0, flag=3) if mode == "fn" else timed.apply(p, told["live"], None, jnp.zeros(()), jnp.zeros(()))
                raise Mismatch("the error is lost")
            except Boom:
                pass
            told["raise"] = False
        return False

    ys = []
    with surroundings(clock, answers, D):
        for o in job["ops"]:
            intr = op(o)
            ys.append(see(d, intr, sform, iform, mode))
        if mode == "wax":  # compiled: the results are those of the bare transformation
            told.update(t=0)
            answers[:] = []
            x = jnp.asarray(1.0), jnp.asarray(2.0)
            a, b = jax.jit(fn.apply)(p, s0, None, *x), jax.jit(timed.apply)(p, s0, None, *x)
            if not jax.tree_util.tree_all(jax.tree_util.tree_map(lambda u, w: np.array_equal(u, w), a, b)):
                raise Mismatch("compiled results")
    return ys


def ms(t):
    return NO if t is None else round(t)


def see(d, intr, sform, iform, mode):
    sm, ex = d.get_summary(), d.export_events()
    times = d.performance_data.get("execution_time", []) if "execution_time" in d.performance_data else []
    steps = d.performance_data["step"] if "step" in d.performance_data else []
    T = [dict(t=round(t * 1000), step=s) for t, s in zip(times, steps)]
    if len(times) != len(steps) or ex["performance_data"] != ({"execution_time": times, "step": steps} if times else {}):
        raise Mismatch("performance data")
    pf = sm["performance"]
    if T:
        want = dict(total_steps=len(T), avg_time_ms=sum(times) / len(times) * 1000, max_time_ms=max(times) * 1000, min_time_ms=min(times) * 1000)
        if set(pf) != set(want) or any(abs(pf[k] - want[k]) > 1e-9 for k in want):
            raise Mismatch(f"performance {pf}")
    elif pf:
        raise Mismatch(f"performance {pf}")
    if sm["state_history_length"] != len(d.state_history) or ex["summary"]["total_steps"] != sm["total_steps"] or list(sm["hooks"]) != list(ex["hooks"]):
        raise Mismatch("summary")
    form = "wax" if mode == "wax" else sform
    hooks = []
    for name, h in d.hooks.items():
        via = next((v for v, p in (("state", "state_change_"), ("break", "breakpoint_"), ("perf", "perf_")) if name.startswith(p)), "hook")
        base = name if via == "hook" else name.split("_")[-1]
        evs = []
        for e, x in zip(h.events, ex["hooks"][name]):
            t = ms(e.metadata["execution_time_ms"])
            if x != dict(step=e.step, timestamp=e.timestamp, event_type=e.event_type, metadata=e.metadata) or e.module_name not in ("m", "StreamingTransform", "Fn"):
                raise Mismatch(f"event {x}")
            brk = e.event_type == "breakpoint"
            if e.event_type not in ("breakpoint", "state_change") or bool(e.stack_trace) != brk:
                raise Mismatch(f"event {e.event_type}")
            if mode == "wax":
                v = read_input("float", e.input_data)
            else:
                v = read_input(iform, e.input_data)
            if float(e.output_data) != v + 1000:
                raise Mismatch(f"output {e.output_data}")
            evs.append(dict(step=e.step, brk=brk, s=read(form, e.state_snapshot), v=v, t=t))
        if sm["hooks"][name] != dict(hit_count=h.hit_count, enabled=h.enabled, events=len(evs)) or len(ex["hooks"][name]) != len(evs):
            raise Mismatch(f"hook {sm['hooks'][name]}")
        hooks.append(dict(via=via, base=base, on=h.enabled, hits=h.hit_count, ev=evs))
    return dict(total=sm["total_steps"], past=[read(form, s, True) for s in d.state_history], times=T, intr=intr, hooks=hooks)


def concurrent(job):
    """steps of several threads: the operations in the order the debugger gave them"""
    import sys

    from wax.flax.debug import debugger as D

    cfg = job["cfg"]
    d = D.StreamingDebugger(enable_state_tracking=True, enable_performance_tracking=True, max_history=cfg["max"])
    setup = [o for o in job["ops"] if o["op"] == "add"]
    work = [o for o in job["ops"] if o["op"] == "step"]
    old = sys.getswitchinterval()
    with surroundings(Clock(), [], D):
        for o in setup:
            d.add_hook(D.DebugHook(o["base"], condition=slow(hook_of(o, "float")), action=o["act"], max_events=o["max"]))
        lanes = [work[i::job["style"]["threads"]] for i in range(job["style"]["threads"])]
        go = threading.Barrier(len(lanes))
        errors = []

        def body(lane):
            try:
                go.wait()
                for o in lane:
                    d.step("m", {"v": Slow(o["s"])}, float(o["v"]), np.array(float(o["v"]) + 1000), o["t"] / 1000)
            except Exception as e:
                errors.append(repr(e))

        try:
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=body, args=(ln,)) for ln in lanes]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise Mismatch(errors[0])
        order = [s["v"].s for s in d.state_history]
        by = {o["s"]: o for o in work}
        if sorted(order) != sorted(by):
            raise Mismatch(f"history {order}")
        pos = {s: i for i, s in enumerate(order)}
        if any(pos[a["s"]] > pos[b["s"]] for ln in lanes for a, b in zip(ln, ln[1:])):
            raise Mismatch("program order")
        d.state_history = type(d.state_history)([{"v": float(s["v"].s)} for s in d.state_history], maxlen=cfg["max"])
        for h in d.hooks.values():
            for e in h.events:
                e.state_snapshot = {"v": float(e.state_snapshot["v"].s)}
        y = see(d, False, "scalar", "float", "direct")
    ops = setup + [by[s] for s in order]
    return dict(ops=ops, ys=[None] * (len(ops) - 1) + [y])


class Slow:
    """a leaf that gives way to the other threads whenever it is looked at"""
    def __init__(self, s):
        self.s = s

    def __copy__(self):
        return self


def slow(cond):
    def c(*a):
        real_time.sleep(0)
        real_time.sleep(0.0002)
        return cond(*a)
    return c
