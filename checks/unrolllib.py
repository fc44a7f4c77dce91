"""Drivers of the real unroll entry points for the scenarios of Unroll.tla.

A scenario (cfg) is run call by call; the result is the list of recorded events
  {"e":"start"}, {"e":"step","y":..,"key":[..]}, {"e":"end","st":..,"par":..}
`tree` variants wrap the module's inputs and outputs in nested structures."""
import warnings
from functools import partial

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

warnings.filterwarnings("ignore")
jax.config.update("jax_enable_x64", True)
ROOT = 1234
NOKEY = [-9]
KEYED = ("rnd", "nst")  # kinds that draw a key


# ----------------------------------------------------------------- modules
def core_hk(kind, x):
    if kind == "acc":
        s = hk.get_state("s", x.shape, x.dtype, init=lambda sh, dt: jnp.ones(sh, dt))
        hk.set_state("s", 2 * s + x)
        return s + x, None
    if kind == "par":
        p = hk.get_parameter("p", x.shape, x.dtype, init=lambda sh, dt: x + 2)
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.zeros)
        hk.set_state("s", s + 1)
        return p * x + s, None
    if kind == "sx0":
        s = hk.get_state("s", x.shape, x.dtype, init=lambda sh, dt: 3 * x)
        hk.set_state("s", x)
        return s - x, None
    if kind == "nst":
        return 2 * x, hk.next_rng_key()
    if kind == "rnd":
        s = hk.get_state("s", x.shape, x.dtype, init=jnp.zeros)
        hk.set_state("s", s + 1)
        return s + x, hk.next_rng_key()
    raise ValueError(kind)


def wrap(core, shape):
    """the module under the input/output structure `shape`"""
    if shape == "tree":
        def f(obs, *, other):
            y, k = core(obs["a"])
            return {"y": y, "aux": (2 * y, other[0]), "k": k}
    else:
        def f(x):
            y, k = core(x)
            return (y, k)
    return f


def hk_fun(kind, shape):
    class Core(hk.Module):
        def __call__(self, x):
            return core_hk(kind, x)

    return wrap(lambda x: Core(name="core")(x), shape)


def pack(xs, shape):
    """the sequence(s) given to the entry point -> (args, kwargs)"""
    a = jnp.array(xs, dtype=jnp.float64)
    if shape == "vec":
        return (jnp.stack([a, a], axis=1),), {}
    if shape == "tree":
        return ({"a": a},), {"other": (a + 100,)}
    return (a,), {}


class Inconsistent(Exception):
    pass


def scalars(y):
    y = np.asarray(y)
    if y.ndim == 2:
        if not (y[:, 0] == y[:, 1]).all():
            raise Inconsistent("components of a broadcast input differ")
        y = y[:, 0]
    return y


def unpack(out, shape, xs):
    """-> (list of y, list of raw keys or None)"""
    if shape == "tree":
        y, k = scalars(out["y"]), out["k"]
        if not np.array_equal(np.asarray(out["aux"][0]), 2 * y):
            raise Inconsistent("nested output differs from its sibling")
        if not np.array_equal(np.asarray(out["aux"][1]), np.array(xs[-len(y):], float) + 100 if len(y) else y):
            raise Inconsistent("keyword input is not the one of the step")
    else:
        y, k = out
        y = scalars(y)
    return [float(v) for v in y], (None if k is None else np.asarray(k))


def same(a, b, why):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    if jax.tree_util.tree_structure(a) != jax.tree_util.tree_structure(b) or len(la) != len(lb) or not all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(la, lb)):
        raise Inconsistent(why)


def num(v):
    v = np.unique(np.asarray(v))
    if v.size != 1:
        raise Inconsistent(f"state is not uniform {v}")
    f = float(v[0])
    return int(f) if f == int(f) else -999999


def keytable(n, mode, inner):
    """raw key seen by the module -> term (path)"""
    tab = {}
    if mode == "seq":
        seq = hk.PRNGSequence(ROOT)
        for i in range(n + 1):
            tab[np.asarray(inner(next(seq))).tobytes()] = [i + 1]
        return tab
    k = jax.random.PRNGKey(ROOT)
    tab[np.asarray(inner(k)).tobytes()] = []
    path = []
    for _ in range(n):
        k, sub = jax.random.split(k)
        tab[np.asarray(inner(sub)).tobytes()] = path + [1]
        path = path + [0]
        tab[np.asarray(inner(k)).tobytes()] = list(path)
    return tab


def hk_inner(k):
    return hk.transform(lambda: hk.next_rng_key()).apply({}, k)


# ------------------------------------------------------------------ Haiku
def run_haiku(cfg, entry, shape):
    from wax import transform as wt
    from wax import unroll as wu
    from wax.compile import jit_init_apply

    kind = cfg["kind"]
    fun = hk_fun(kind, shape)
    tfun = hk.transform_with_state(fun)
    use_key = kind in KEYED or cfg.get("rng", False)
    params = state = None
    tab = keytable(max(len(p) for p in cfg["parts"]) + 1, cfg["keys"], hk_inner) if kind in KEYED else {}
    ev = []
    for n, xs in enumerate(cfg["parts"]):
        rng = jax.random.PRNGKey(ROOT) if use_key else None
        skip = cfg["skip"] and n == 0
        args, kwargs = pack(xs, shape)
        # own initialisation with Haiku itself, to learn the structures / parameters
        a0, k0 = jax.tree_util.tree_map(lambda v: v[0], (args, kwargs))
        first = n == 0 and not cfg["gp"] and not cfg["gs"]
        own = None
        if n == 0:
            own, s0 = tfun.init(rng if rng is not None else jax.random.PRNGKey(0), *a0, **k0)
            if cfg["gp"]:
                own = params = jax.tree_util.tree_map(lambda v: jnp.full_like(v, cfg["gpar"]), own)
            if cfg["gs"]:
                state = jax.tree_util.tree_map(lambda v: jnp.full_like(v, cfg["gst"]), s0)
        keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))
        xkeep = jax.tree_util.tree_map(lambda v: np.array(v), (args, kwargs))
        pp = params if own is None else own
        if entry in ("unroll_dyn", "unroll_static"):
            dyn = entry.endswith("dyn")
            src = [fun, tfun, wu.unroll_transform_with_state(fun, skip_first=skip, dynamic=dyn)][(len(xs) + n) % 3]
            kw = dict(skip_first=skip, dynamic=dyn, rng=rng, params=params, state=state)
            out, st = wu.unroll(src, return_final_state=True, pbar=len(xs) % 2 == 0, **kw)(*args, **kwargs)
            alone = wu.unroll(src, **kw)(*args, **kwargs)
            same(alone, out, "without the final state the outputs differ")
        elif entry in ("uts_dyn", "uts_static", "uts_jit", "init_ps", "data"):
            t = wu.unroll_transform_with_state(fun, skip_first=skip, dynamic=entry != "uts_static", pbar=len(xs) % 2 == 0)
            if entry == "uts_jit" and n % 2 == 0:
                t = jit_init_apply(t)
            ini = partial(wu.init_params_state, tfun) if entry == "init_ps" else t.init
            app = jax.jit(t.apply) if entry == "uts_jit" else t.apply
            xa, xk = args, kwargs
            if entry == "data":
                gen = ((jax.tree_util.tree_map(lambda v, i=i: v[i], args), {}) for i in range(len(xs)))
                xa = wu.data_unroll(gen, pbar=len(xs) % 2 == 0)
                same(xa, args, "the collected observations differ")
            if first:
                pp, state = ini(rng, *xa, **xk)
                keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))
            out, st = app(pp, state, rng, *xa, **xk)
        elif entry in ("dynamic_unroll", "static_unroll"):
            out, st = getattr(wu, entry)(tfun, params, state, rng, skip, *args, **kwargs)
        elif entry == "fori":
            out, st = wu.dynamic_unroll_fori_loop(
                hk.transform_with_state(lambda x: fun(x)[0]), params, state, rng, skip, *args, **kwargs)
            out = (out, None)
        elif entry == "gym_static":
            gen = iter([(jax.tree_util.tree_map(lambda v, i=i: v[i], args[0]), {}) for i in range(len(xs))])
            out, st = wu.gym_static_unroll(tfun, params, state, hk.PRNGSequence(ROOT), skip, gen, pbar=len(xs) % 2 == 0)
        elif entry in ("scan_xs", "scan_none"):
            items = args, kwargs
            if skip:
                items = jax.tree_util.tree_map(lambda v: v[1:], items)
            if first:
                pp, state = tfun.init(rng, *a0, **k0)
                keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))

            def one(carry, x):
                s, k, i = carry
                sub = None
                if k is not None:
                    k, sub = jax.random.split(k)
                if x is None:
                    x = jax.tree_util.tree_map(lambda v: v[i], items)
                y, s = tfun.apply(pp, s, sub, *x[0], **x[1])
                return (s, k, i + 1), y

            if entry == "scan_xs":
                (st, _, _), out = wu.static_scan(one, (state, rng, 0), items)
            else:
                (st, _, _), out = wu.static_scan(one, (state, rng, 0), None, len(xs) - int(skip))
        elif entry in ("batch_dyn", "batch_static"):
            mk = wt.transform_batch_with_state if entry.endswith("dyn") else wt.transform_batch_with_state_static
            t = mk(tfun, skip_first=skip)
            bp, bs = t.init(rng, *args)
            if not first:
                bs = type(bs)(pp, state, bs.rng_key)
            # the key given to apply replaces the one of the state
            if rng is not None:
                bs = bs._replace(rng_key=jax.random.PRNGKey(77))
            pp = bs.fun_params
            out, bs = t.apply(bp, bs, rng, *args)
            st = bs.fun_state
            pp = bs.fun_params
        else:
            raise ValueError(entry)
        # purity: what the caller passed is untouched
        if not first:
            for a, b in zip(jax.tree_util.tree_leaves(keep), jax.tree_util.tree_leaves((params, state))):
                if not np.array_equal(a, np.asarray(b)):
                    raise Inconsistent("the caller's parameters or state were modified")
        for a, b in zip(jax.tree_util.tree_leaves(xkeep), jax.tree_util.tree_leaves((args, kwargs))):
            if not np.array_equal(a, np.asarray(b)):
                raise Inconsistent("the caller's inputs were modified")
        params, state = pp, st
        ev.append({"e": "start"})
        ys, ks = unpack(out, shape, xs)
        for i, y in enumerate(ys):
            key = [] if ks is None else tab.get(ks[i].tobytes(), NOKEY)
            ev.append({"e": "step", "y": num(y), "key": key})
        pl, sl = jax.tree_util.tree_leaves(params), jax.tree_util.tree_leaves(state)
        ev.append({"e": "end", "st": num(sl[0]) if sl else (cfg["gst"] if cfg["gs"] else 0), "par": num(pl[0]) if pl else (cfg["gpar"] if cfg["gp"] else 0)})
    return ev


# ------------------------------------------------------------------- Flax
def flax_module(kind, shape):
    import flax.linen as nn

    class Core(nn.Module):
        @nn.compact
        def __call__(self, x):
            if kind == "acc":
                s = self.variable("state", "s", lambda: jnp.ones_like(x))
                y = s.value + x
                s.value = 2 * s.value + x
                return y, None
            if kind == "par":
                p = self.param("p", lambda rng: x + 2)
                s = self.variable("memory", "s", lambda: jnp.zeros_like(x))
                y = p * x + s.value
                s.value = s.value + 1
                return y, None
            if kind == "sx0":
                s = self.variable("state", "s", lambda: 3 * x)
                y = s.value - x
                s.value = x
                return y, None
            if kind == "nst":
                return 2 * x, self.make_rng("default")
            s = self.variable("state", "s", lambda: jnp.zeros_like(x))
            y = s.value + x
            s.value = s.value + 1
            return y, self.make_rng("default")

    if shape == "tree":
        class Tree(nn.Module):
            @nn.compact
            def __call__(self, obs, *, other):
                y, k = Core(name="core")(obs["a"])
                return {"y": y, "aux": (2 * y, other[0]), "k": k}

        return Tree()
    return Core()


def run_flax(cfg, entry, shape):
    from wax.compile import jit_init_apply
    from wax.flax.core import state_utils as su
    from wax.flax.core import transform as ft
    from wax.flax.core import unroll as fu

    kind = cfg["kind"]
    module = flax_module(kind, shape)
    use_key = kind in KEYED or cfg.get("rng", False)
    tf = ft.flax_transform_with_state(module)
    params = state = None
    ev = []

    def inner(k):
        a0, k0 = jax.tree_util.tree_map(lambda v: v[0], pack([0], shape))
        m = su.StreamingModuleWrapper(wrapped_module=module) if entry == "wrapper" else module
        v = m.init({"params": k, "default": k}, *a0, **k0)
        o, _ = m.apply(v, *a0, rngs={"default": k}, mutable=True, **k0)
        return o["k"] if shape == "tree" else o[1]

    tab = keytable(max(len(p) for p in cfg["parts"]) + 1, cfg["keys"], inner) if kind in KEYED else {}
    for n, xs in enumerate(cfg["parts"]):
        rng = jax.random.PRNGKey(ROOT) if use_key else None
        irng = rng if rng is not None else jax.random.PRNGKey(0)
        skip = cfg["skip"] and n == 0
        args, kwargs = pack(xs, shape)
        a0, k0 = jax.tree_util.tree_map(lambda v: v[0], (args, kwargs))
        first = n == 0 and not cfg["gp"] and not cfg["gs"]
        own = None
        if n == 0:
            own, s0 = tf.init(irng, *a0, **k0)
            if cfg["gp"]:
                own = params = jax.tree_util.tree_map(lambda v: jnp.full_like(v, cfg["gpar"]), own)
            if cfg["gs"]:
                state = jax.tree_util.tree_map(lambda v: jnp.full_like(v, cfg["gst"]), s0)
        keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))
        if entry in ("unroll_dyn", "unroll_static"):
            dyn = entry.endswith("dyn")
            src = [module, lambda: module, tf, fu.create_flax_module_factory(type(module)),
                   su.create_streaming_module_wrapper(type(module))(),
                   fu.flax_unroll_transform(module, skip_first=skip, dynamic=dyn)][(len(xs) + int(sum(xs)) + n) % 6]
            kw = dict(skip_first=skip, dynamic=dyn)
            pp, use, k = (params if own is None else own), state, rng
            if n == 0 and not (cfg["gp"] and cfg["gs"]) and not use_key:
                # flax's init needs a key: what is missing comes from `init`
                ip, ist = fu.flax_unroll_transform(src).init(irng, *args, **kwargs) if not isinstance(src, fu.FlaxUnrollTransformed) else src.init(irng, *args, **kwargs)
                params, use = (params if cfg["gp"] else ip), (state if cfg["gs"] else ist)
                pp, state = params, use
                keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))
            out, st = fu.flax_unroll(src, rng=k, params=params, state=use, return_final_state=True, pbar=len(xs) % 2 == 0, **kw)(*args, **kwargs)
            same(fu.flax_unroll(src, rng=k, params=params, state=use, **kw)(*args, **kwargs), out, "without the final state the outputs differ")
        elif entry in ("uts_dyn", "uts_static", "uts_jit", "wrapper"):
            src = su.make_streaming_compatible(module) if entry == "wrapper" else module
            t = fu.flax_unroll_transform(src, skip_first=skip, dynamic=entry != "uts_static")
            if entry == "uts_jit" and n % 2 == 0:
                t = jit_init_apply(t)
            if first:
                params, state = t.init(irng, *args, **kwargs)
                keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))
            elif entry == "wrapper" and n == 0:
                p0, s0 = t.init(irng, *args, **kwargs)
                params = jax.tree_util.tree_map(lambda v: jnp.full_like(v, cfg["gpar"]), p0)
                state = jax.tree_util.tree_map(lambda v: jnp.full_like(v, cfg["gst"]), s0)
                keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))
            pp = params
            out, st = (jax.jit(t.apply) if entry == "uts_jit" else t.apply)(params, state, rng, *args, **kwargs)
        elif entry == "aws":
            # step by step with apply_with_state
            if first:
                params, state = tf.init(irng, *a0, **k0)
                keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))
            v, outs, k = ft.combine_variables(params, state), [], rng
            for i in range(1 if skip else 0, len(xs)):
                ai, ki = jax.tree_util.tree_map(lambda v, i=i: v[i], (args, kwargs))
                if k is not None:
                    k, sub = jax.random.split(k)
                    ki = dict(ki, rngs={"default": sub})
                o, new = su.apply_with_state(module, v, *ai, **ki)
                v = {**v, **new}
                outs.append(o)
            pp, st = ft.split_variables(v)
            out = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *outs)
        elif entry == "loop":
            # step by step with flax_transform_with_state / split / combine
            if first:
                params, state = tf.init(irng, *a0, **k0)
                keep = jax.tree_util.tree_map(lambda v: np.array(v), (params, state))
            pp, st, outs, k = params, state, [], rng
            for i in range(1 if skip else 0, len(xs)):
                ai, ki = jax.tree_util.tree_map(lambda v, i=i: v[i], (args, kwargs))
                sub = None
                if k is not None:
                    k, sub = jax.random.split(k)
                pp, st = ft.split_variables(ft.combine_variables(pp, st))
                o, st = tf.apply(pp, st, sub, *ai, **ki)
                outs.append(o)
            out = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *outs)
        else:
            raise ValueError(entry)
        if not first or entry in ("uts_dyn", "uts_static", "uts_jit", "wrapper", "loop"):
            for a, b in zip(jax.tree_util.tree_leaves(keep), jax.tree_util.tree_leaves((params, state))):
                if not np.array_equal(a, np.asarray(b)):
                    raise Inconsistent("the caller's variables were modified")
        params, state = pp, st
        ev.append({"e": "start"})
        ys, ks = unpack(out, shape, xs)
        for i, y in enumerate(ys):
            key = [] if ks is None else tab.get(ks[i].tobytes(), NOKEY)
            ev.append({"e": "step", "y": num(y), "key": key})
        pl, sl = jax.tree_util.tree_leaves(params), jax.tree_util.tree_leaves(state)
        ev.append({"e": "end", "st": num(sl[0]) if sl else (cfg["gst"] if cfg["gs"] else 0), "par": num(pl[0]) if pl else (cfg["gpar"] if cfg["gp"] else 0)})
    return ev


def job(item):
    f = run_flax if item["lib"] == "flax" else run_haiku
    with jax.enable_x64(item.get("x64", True)):
        return f(item["cfg"], item["entry"], item["shape"])


def jobs(items):
    """several scenarios in one task (amortises process start)"""
    from vlib import _call

    return [_call(("unrolllib:job", it)) for it in items]
