"""Generic drivers of streaming modules (Haiku and Flax).

A job runs one configured module on N input histories at once (they are the items of
the array the module receives, or separate scalar runs) and returns the outputs
[history][step][component] as floats.  Modules are looked up in `adapters` (the file of
the property registers them): adapters[name](cfg, lib) -> (build, post) where
  Haiku: build(*channels) is called inside a transformed function
  Flax:  build() returns the module
  post(out, shape) returns a list of arrays with the shape of an item."""
import warnings

import flax.linen as nn
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

warnings.filterwarnings("ignore")
jax.config.update("jax_enable_x64", True)
adapters = {}
KEY = jax.random.PRNGKey(7)


def adapter(name):
    def deco(f):
        adapters[name] = f
        return f
    return deco


class Mismatch(Exception):
    pass


def stack(outs):
    return jnp.stack([jnp.asarray(o, dtype=jnp.float64) for o in outs])


def cat(parts):
    return np.concatenate([np.asarray(p) for p in parts], axis=0)


def run_seq(lib, build, post, chans, how, shape, key=None):
    """chans: list of arrays [T, *shape] -> outputs [T, K, *shape]"""
    T = len(chans[0])
    if lib == "hk":
        t = hk.transform_with_state(lambda *c: stack(post(build(*c), shape)))
        first = [c[0] for c in chans]
        if how == "wax":
            from wax.unroll import unroll
            return np.asarray(unroll(lambda *c: stack(post(build(*c), shape)), rng=KEY)(*chans))
        if how == "wax_static":
            from wax.unroll import unroll
            return np.asarray(unroll(lambda *c: stack(post(build(*c), shape)), dynamic=False, rng=KEY)(*chans))
        p, s = t.init(KEY, *first)

        def step(s, c):
            o, s = t.apply(p, s, None, *c)
            return s, o

        head = None
    else:
        m = build()
        first = [c[0] for c in chans]
        o0, v = m.init_with_output(KEY, *first)
        head = np.asarray(stack(post(o0, shape)))[None]
        s = v
        mutable = [k for k in v if k != "params"]

        def step(s, c):
            if not mutable:
                o, u = m.apply(s, *c), s
            else:
                o, u = m.apply(s, *c, mutable=mutable)
                u = {**s, **u}
            return u, stack(post(o, shape))

        chans = [c[1:] for c in chans]
        T -= 1
    if T == 0:
        return head
    if how == "scan":
        s, out = jax.jit(lambda s, cs: jax.lax.scan(step, s, cs))(s, tuple(chans))
        outs = [out]
    elif how == "resume":
        k = max(1, T // 2)
        sc = jax.jit(lambda s, cs: jax.lax.scan(step, s, cs))
        outs = []
        for a, b in ((0, k), (k, T)):
            if b > a:
                s, o = sc(s, tuple(c[a:b] for c in chans))
                s = jax.tree_util.tree_map(lambda z: jnp.asarray(np.array(z)), s)
                outs.append(o)
    elif how in ("loop", "eager"):
        f = jax.jit(step) if how == "loop" else step
        outs = []
        for i in range(T):
            s, o = f(s, tuple(c[i] for c in chans))
            outs.append(np.asarray(o)[None])
    else:
        raise ValueError(how)
    return cat(([head] if head is not None else []) + outs)


def run_vmap(lib, build, post, chans, how):
    """each history alone (scalar items), all of them under one vmap"""
    if lib == "hk":
        t = hk.transform_with_state(lambda *c: stack(post(build(*c), ())))

        def one(*cs):
            p, s = t.init(KEY, *[c[0] for c in cs])

            def step(s, c):
                o, s = t.apply(p, s, None, *c)
                return s, o

            return jax.lax.scan(step, s, cs)[1]
    else:
        m = build()

        def one(*cs):
            o0, s = m.init_with_output(KEY, *[c[0] for c in cs])
            mutable = [k for k in s if k != "params"]

            def step(s, c):
                if not mutable:
                    return s, stack(post(m.apply(s, *c), ()))
                o, u = m.apply(s, *c, mutable=mutable)
                return {**s, **u}, stack(post(o, ()))

            o = jax.lax.scan(step, s, tuple(c[1:] for c in cs))[1]
            return jnp.concatenate([stack(post(o0, ()))[None], o])
    return np.asarray(jax.jit(jax.vmap(one))(*chans))


def other(c):
    """different inputs of the same kind"""
    if c.dtype == bool:
        return ~c
    if jnp.issubdtype(c.dtype, jnp.floating):
        return jnp.where(jnp.isfinite(c), 2 * c + 1, 3).astype(c.dtype)
    return c + 1


def with_sibling(lib, build, where):
    """the module beside another instance of it (same configuration, different inputs):
    instances in one transformation must not share anything"""
    if lib == "hk":
        def two(*c):
            if where == "before":
                build(*[other(a) for a in c])
            o = build(*c)
            if where == "after":
                build(*[other(a) for a in c])
            return o
        return two

    class Two(nn.Module):
        @nn.compact
        def __call__(self, *c):
            if where == "before":
                build()(*[other(a) for a in c])
            o = build()(*c)
            if where == "after":
                build()(*[other(a) for a in c])
            return o
    return Two


def in_unit(cfg, k):
    """the configured values of the kind of the inputs, in a unit 2**k smaller"""
    def f(v):
        if v[1] == 0:
            return v
        return [v[0] * 2**k, v[1]] if k >= 0 else [v[0], v[1] * 2**-k]
    return {n: f(v) if n in ("init", "fill") else v for n, v in cfg.items()}


def run(job):
    """With job["unit"] = k the module sees its inputs in a unit 2**k times smaller, and the
    outputs, of degree job["deg"] in the unit, are brought back: the arithmetic of binary
    floats commutes with it.  job["x64"] False: with the default precision of jax."""
    k, deg = job.get("unit"), job.get("deg")
    if k:
        dt = job.get("dtype", "float64")
        dts = dt if isinstance(dt, (list, tuple)) else [dt] * np.shape(job["x"])[2]
        x = np.array(job["x"], dtype=float)
        for c, d in enumerate(dts):
            if d.startswith("float"):
                x[:, :, c] *= 2.0**k
        job = dict(job, x=x, cfg=in_unit(job["cfg"], k))
    if job.get("x64", True):
        y = drive(job)
    else:
        with jax.enable_x64(False):
            y = drive(job)
    if k:
        y = np.array(y, dtype=float)
        d = np.asarray(deg if isinstance(deg, list) else [deg] * y.shape[2])
        y = y / (2.0**k) ** d
    return y


def drive(job):
    """job: lib, mod, cfg, how, layout, dtype, x: array [N, T, C] -> y: array [N, T, K]"""
    x = np.asarray(job["x"])
    N, T, C = x.shape
    dt = job.get("dtype", "float64")
    dts = dt if isinstance(dt, (list, tuple)) else [dt] * C
    if job.get("layout") == "session":  # the adapter drives the whole history itself
        return np.asarray(adapters[job["mod"]](job["cfg"], job["lib"])(job, x))
    build, post = adapters[job["mod"]](job["cfg"], job["lib"])

    if job.get("sib"):
        build = with_sibling(job["lib"], build, job["sib"])

    def chan(a, c):
        return jnp.asarray(a.astype(dts[c]))

    layout = job.get("layout", "cols")
    if layout == "vmap":
        y = run_vmap(job["lib"], build, post, [chan(x[:, :, c], c) for c in range(C)], job["how"])
        return y.reshape(N, T, -1)
    scal = set(job.get("scalar_chans", ()))
    if layout == "scalar":
        ys = []
        for n in range(N):
            y = run_seq(job["lib"], build, post, [chan(x[n, :, c], c) for c in range(C)], job["how"], ())
            ys.append(y.reshape(T, -1))
        return np.stack(ys)
    if layout == "cols":
        shape, M = (N,), N
    elif layout == "one":
        shape, M = (1,), 1
        assert N == 1
    else:
        M = N + N % 2
        x = np.concatenate([x, x[: M - N]]) if M > N else x
        shape = (M // 2, 2) if layout == "mat" else (1, M // 2, 2)
    chans = []
    for c in range(C):
        if c in scal:
            assert (x[:, :, c] == x[:1, :, c]).all()
            chans.append(chan(x[0, :, c], c))
        else:
            chans.append(chan(x[:, :, c].T.reshape((T,) + shape), c))
    y = run_seq(job["lib"], build, post, chans, job["how"], shape)
    y = np.asarray(y)
    y = y.reshape(T, y.shape[1], M)[:, :, :N]
    return np.transpose(y, (2, 0, 1))


def jobs(arg):
    mod, items = arg
    import importlib

    from vlib import _call

    importlib.import_module(mod)
    return [_call(("modlib:run", it)) for it in items]
