"""Drivers of the lifted / batched transformations (Lift.tla)."""
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from unrolllib import Inconsistent, core_hk, num

warnings.filterwarnings("ignore")
jax.config.update("jax_enable_x64", True)


class Core(hk.Module):
    def __init__(self, kind, name="core"):
        super().__init__(name=name)
        self.kind = kind

    def __call__(self, x):
        y, _ = core_hk(self.kind, x)
        return y


def single(kind, shape):
    if shape == "tree":
        return lambda o: {"y": Core(kind)(o["a"]), "z": o["b"] * 2}
    if shape == "vec":
        return lambda x: Core(kind)(x)
    return lambda x: Core(kind)(x)


def xpack(rows, shape):
    a = jnp.array(rows, dtype=jnp.float64)
    if shape == "tree":
        return {"a": a, "b": a + 50}
    if shape == "vec":
        return jnp.stack([a, a, a], axis=-1)
    return a


def yunpack(out, shape, rows):
    if shape == "tree":
        if not np.array_equal(np.asarray(out["z"]), (np.array(rows, float) + 50) * 2):
            raise Inconsistent("stateless branch differs")
        out = out["y"]
    out = np.asarray(out)
    if shape == "vec":
        if not (out == out[..., :1]).all():
            raise Inconsistent("broadcast components differ")
        out = out[..., 0]
    return [[num(v) for v in row] for row in out]


def states(state, nb, shape):
    leaf = np.asarray(jax.tree_util.tree_leaves(state)[0])
    return [num(leaf[b]) for b in range(nb)]


def run(item):
    from wax.modules.vmap import VMap, add_batch
    from wax.stateful import unroll_lift_with_state, vmap_lift_with_state
    from wax.unroll import unroll_transform_with_state

    cfg, entry, shape = item["cfg"], item["entry"], item["shape"]
    fun = single(cfg["kind"], shape)
    rows = cfg["steps"]
    nb = len(rows[0])
    seed = jax.random.PRNGKey(5)
    lift_kw = item.get("kw", {})
    cut = item.get("cut", 0)
    tr = (lambda v: jnp.swapaxes(v, 0, 1))
    applied = rows[1:] if cfg["skip"] else rows
    if entry in ("vmap_in_unroll", "vmap_module", "add_batch", "mean_batch"):
        if entry == "vmap_in_unroll":
            f = lambda x: vmap_lift_with_state(fun, **lift_kw)(x)  # noqa: E731
        elif entry == "vmap_module":
            f = lambda x: VMap(fun)(x)  # noqa: E731
        else:
            f = lambda x: add_batch(fun, take_mean=entry == "mean_batch")(x)  # noqa: E731
        t = unroll_transform_with_state(f, skip_first=cfg["skip"], dynamic=item["dynamic"])
        modular = entry != "vmap_in_unroll"  # the modules always initialise from a key
        key = seed if (modular or lift_kw.get("split_rng") or lift_kw.get("init_rng", True)) else None
        akey = seed if (lift_kw.get("split_rng") or item.get("akey")) else None
        params, state = t.init(key, xpack(rows, shape))
        outs = []
        if cut:
            t2 = unroll_transform_with_state(f, dynamic=item["dynamic"])
            o, state = t.apply(params, state, akey, xpack(rows[:cut], shape))
            outs.append(o)
            o, state = t2.apply(params, state, akey, xpack(rows[cut:], shape))
            outs.append(o)
            out = jax.tree_util.tree_map(lambda *v: jnp.concatenate(v), *outs)
        else:
            out, state = t.apply(params, state, akey, xpack(rows, shape))
        if entry == "mean_batch":
            return dict(mean=[float(v) for v in np.asarray(out).reshape(len(applied), -1)[:, 0]], st=states(state, nb, shape))
    elif entry == "unroll_lift":
        # one element at a time: the unroll is itself lifted in an outer transformation
        ys, sts = [], []
        for b in range(nb):
            f = hk.transform_with_state(lambda x: unroll_lift_with_state(fun, skip_first=cfg["skip"], **lift_kw)(x))
            col = [[r[b]] for r in rows]
            x = jax.tree_util.tree_map(lambda v: v[:, 0], xpack(col, shape))
            key = seed if lift_kw.get("init_rng", True) or lift_kw.get("split_rng") else None
            params, state = f.init(key, x)
            akey = seed if lift_kw.get("split_rng") else None
            if cut:
                o1, state = f.apply(params, state, akey, jax.tree_util.tree_map(lambda v: v[:cut], x))
                o2, state = f.apply(params, state, akey, jax.tree_util.tree_map(lambda v: v[cut:], x))
                o = jax.tree_util.tree_map(lambda a, c: jnp.concatenate([a, c]), o1, o2)
            else:
                o, state = f.apply(params, state, akey, x)
            ys.append(o)
            sts.append(num(jax.tree_util.tree_leaves(state)[0]))
        out = jax.tree_util.tree_map(lambda *v: jnp.stack(v, axis=1), *ys)
        return dict(y=yunpack(out, shape, applied), st=sts)
    elif entry in ("vmap_of_unroll", "unroll_of_vmap"):
        if entry == "vmap_of_unroll":
            f = hk.transform_with_state(
                lambda x: vmap_lift_with_state(lambda z: unroll_lift_with_state(fun, skip_first=cfg["skip"], init_rng=False)(z), init_rng=False)(x))
            view = lambda x: jax.tree_util.tree_map(tr, x)  # noqa: E731
        else:
            f = hk.transform_with_state(
                lambda x: unroll_lift_with_state(lambda z: vmap_lift_with_state(fun, init_rng=False)(z), skip_first=cfg["skip"], init_rng=False)(x))
            view = lambda x: x  # noqa: E731
        x = xpack(rows, shape)
        params, state = f.init(None, view(x))
        if cut:
            o1, state = f.apply(params, state, None, view(jax.tree_util.tree_map(lambda v: v[:cut], x)))
            o2, state = f.apply(params, state, None, view(jax.tree_util.tree_map(lambda v: v[cut:], x)))
            out = jax.tree_util.tree_map(lambda a, c: jnp.concatenate([a, c]), view(o1), view(o2))
        else:
            out, state = f.apply(params, state, None, view(x))
            out = view(out)
    else:
        raise ValueError(entry)
    return dict(y=yunpack(out, shape, applied), st=states(state, nb, shape))


def keys_run(item):
    """random keys used by the elements / steps of a lifted transformation"""
    from wax.stateful import unroll_lift_with_state, vmap_lift_with_state

    nb, nt, entry = item["nb"], item["nt"], item["entry"]

    def fun(x):
        return hk.next_rng_key() + 0 * x.astype(jnp.uint32)

    if entry == "vmap":
        f = hk.transform_with_state(lambda x: vmap_lift_with_state(fun, split_rng=True)(x))
        params, state = f.init(jax.random.PRNGKey(0), jnp.zeros(nb))
        out, k = [], jax.random.PRNGKey(item["seed"])
        for _ in range(nt):
            k, s = jax.random.split(k)
            o, state = f.apply(params, state, s, jnp.zeros(nb))
            out.append(np.asarray(o))
        out = np.stack(out).reshape(nt * nb, -1)
    else:
        f = hk.transform_with_state(lambda x: unroll_lift_with_state(fun, split_rng=True)(x))
        params, state = f.init(jax.random.PRNGKey(0), jnp.zeros(nt))
        out, _ = f.apply(params, state, jax.random.PRNGKey(item["seed"]), jnp.zeros(nt))
        out = np.asarray(out).reshape(nt, -1)
    return [tuple(int(z) for z in r) for r in out]


def flax_vmap(item):
    from wax.flax.modules.vmap import VMap, add_batch, create_vmap

    x = jnp.array(item["x"], dtype=jnp.float64)
    f = lambda v: {"a": v * 2 + 1, "b": (v * v,)}  # noqa: E731
    mk = create_vmap if item["factory"] else (lambda fun, take_mean: VMap(fun=fun, take_mean=take_mean))
    m = mk(f, take_mean=item["mean"])
    out = m.apply({}, x)
    if item["mean"]:
        ref = add_batch({"a": x, "b": (x,)})
        return dict(a=np.asarray(out["a"]).tolist(), b=np.asarray(out["b"][0]).tolist(), m=np.asarray(ref["a"]).tolist())
    return dict(a=np.asarray(out["a"]).tolist(), b=np.asarray(out["b"][0]).tolist(), m=None)


def job(item):
    with jax.enable_x64(item.get("x64", True)):
        return dict(run=run, keys=keys_run, flax=flax_vmap)[item["do"]](item)


def jobs(items):
    from vlib import _call

    return [_call(("liftlib:job", it)) for it in items]
