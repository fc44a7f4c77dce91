"""Drivers of the Flax streaming transforms."""
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from modlib import KEY, Mismatch, adapter
from vlib import unproj


class Acc(nn.Module):
    @nn.compact
    def __call__(self, v):
        s = self.variable("state", "s", lambda: jnp.ones_like(v))
        y = s.value + v
        s.value = 2 * s.value + v
        return y


class Tot(nn.Module):
    @nn.compact
    def __call__(self, v):
        s = self.variable("tot", "s", lambda: jnp.zeros_like(v))
        s.value = s.value + jnp.nan_to_num(v)
        return s.value


def fn_of(kind):
    from wax.flax.modules.counter import Counter
    from wax.flax.modules.lag import Lag

    def nest(x):
        n = Counter()()
        return jnp.stack([jnp.asarray(n, dtype=jnp.float64), Tot()(Lag(1)(x["v"]))])

    return dict(acc=lambda x: Acc()(x["v"])[None], lag=lambda x: Lag(1)(x["v"])[None], nest=nest)[kind]


def blocks(modes):
    out = []
    for t, m in enumerate(modes):
        if m == 2:
            out[-1][1].append(t)
        else:
            out.append((int(m), [t]))
    return out


@adapter("sscan")
def sscan(cfg, lib):
    from wax.flax.core import streaming_transforms as st

    def drive(job, x):
        modes = x[0, :, 0]
        assert (x[:, :, 0] == modes).all()
        how = job["how"]
        fn = fn_of(cfg["kind"])
        if cfg["reset"]:
            if how == "deco":
                sc = st.streaming_scan(reset_on=lambda z: z["r"])(fn)
            else:
                sc = st.streaming_scan(fn, reset_on=lambda z: z["r"])
            ap, init = sc.apply, sc.init
        else:
            sc = st.streaming_scan(fn) if how in ("deco", "sscan") else None
            tr = st.streaming_transform_with_state(fn)
            ap, init = tr.apply, tr.init
        rng = KEY if job.get("rng") else None
        x0 = {"v": jnp.asarray(unproj(cfg["x0"])), "r": jnp.asarray(False)}

        def one(v, r):
            p = s = None
            if not cfg["auto"]:
                p, s = init(KEY, x0)
            ys = []
            for m, ts in blocks(modes):
                if m == 0:
                    y, s = ap(p, s, rng, {"v": v[ts[0]], "r": r[ts[0]]})
                    ys.append(y[None])
                else:
                    xs = {"v": v[jnp.array(ts)], "r": r[jnp.array(ts)]}
                    if sc is not None:
                        if p is None:
                            # the first scan initialises; its parameters are needed later
                            p, _ = init(KEY, {"v": v[ts[0]], "r": r[ts[0]]})
                            y, s = sc.scan_apply(xs, rng=rng) if rng is not None else sc.scan_apply(xs)
                        else:
                            y, s = sc.scan_apply(xs, p, s, rng)
                    else:
                        if p is None:
                            p, s = init(KEY, {"v": v[ts[0]], "r": r[ts[0]]})
                        y, s = tr.scan(p, s, rng, xs)
                    ys.append(y)
            return jnp.concatenate(ys)

        v, r = jnp.asarray(x[:, :, 1]), jnp.asarray(x[:, :, 2] != 0)
        if how == "eager":
            return np.stack([np.asarray(one(v[i], r[i])) for i in range(len(x))])
        return jax.jit(jax.vmap(one))(v, r)

    return drive


@adapter("sopt")
def sopt(cfg, lib):
    from wax.flax.core import streaming_transforms as st

    lr, mu = unproj(cfg["lr"]), unproj(cfg["mu"])
    opt = optax.sgd(lr, momentum=mu) if mu else optax.sgd(lr)

    def model(a, *rest):
        m = Tot()(a) if cfg["kind"] == "sum" else a
        return (m, {"twice": 2 * m}) if cfg["aux"] else m

    def drive(job, x):
        deco = st.streaming_optimizer(opt, lambda p, y: (p - y) ** 2, has_aux=cfg["aux"])(model)
        rng = KEY if job.get("rng") else None

        def out(o):
            if cfg["aux"]:
                loss, m, aux = o
                m = jnp.where(aux["twice"] == 2 * m, m, -12345.0)
            else:
                loss, m = o
            return jnp.stack([loss, m])

        def arg(z):
            return (z[0],) if cfg["one"] else (z[0], z[1])

        def one(z):
            x0 = jnp.array([unproj(v) for v in cfg["x0"]])
            p, s = deco.init(KEY, *arg(x0))
            if p:
                raise Mismatch("the learnable scale must not be a parameter")
            if job["how"] == "scan":
                if cfg["one"]:
                    o, s = deco.scan(p, s, rng, z[:, 0])
                    return jax.vmap(out)(o)

                def body(s, zz):
                    o, s = deco.apply(p, s, rng, *arg(zz))
                    return s, out(o)
                return jax.lax.scan(body, s, z)[1]
            ys = []
            for t in range(z.shape[0]):
                o, s = deco.apply(p, s, rng, *arg(z[t]))
                ys.append(out(o))
            return jnp.stack(ys)

        z = jnp.asarray(x)
        if job["how"] == "eager":
            return np.stack([np.asarray(one(z[i])) for i in range(len(x))])
        return jax.jit(jax.vmap(one))(z)

    return drive


@adapter("scanmod")
def scanmod(cfg, lib):
    """the StreamingScan module maps its function and hands the carry over"""
    from wax.flax.core.streaming_transforms import StreamingScan

    def drive(job, x):
        kw = dict(reset_fn=lambda z: z["r"]) if cfg["reset"] else {}
        mod = StreamingScan(fn=lambda z: z["v"] * 3 + 1, **kw)

        def one(v, r):
            xs = {"v": v, "r": r}
            carry = {"c": jnp.arange(2.0), "d": v[0]}
            p = mod.init(KEY, xs, carry)
            y, c = mod.apply(p, xs, carry)
            y2, c2 = mod.apply(p, xs)
            ok = jnp.array_equal(y, y2) & jnp.array_equal(c["c"], carry["c"]) & (c["d"] == carry["d"]) & (c2 == 0)
            return jnp.where(ok, y, -1.0)[:, None]

        return jax.jit(jax.vmap(one))(jnp.asarray(x[:, :, 1]), jnp.asarray(x[:, :, 2] != 0))

    return drive
