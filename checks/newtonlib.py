"""The Newton optimiser as a streaming module: gradients in, updates out."""
import haiku as hk
import jax
import jax.numpy as jnp
import optax
from modlib import Mismatch, adapter
from vlib import unproj

SHAPES = {1: [(), (1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1)], 4: [(2, 2), (4,), (1, 2, 2)]}


def tree(cfg, parts):
    leaves = [jnp.stack(p).reshape(SHAPES[n][cfg["salt"] % len(SHAPES[n])]) for n, p in zip(cfg["sizes"], parts)]
    if cfg["nest"] == "one" and len(leaves) == 1:
        return leaves[0]
    if cfg["nest"] == "map":
        return {f"k{i}": {"w": v} for i, v in enumerate(leaves)}
    return leaves if cfg["nest"] == "list" else tuple(leaves)


def split(cfg, flat):
    out, a = [], 0
    for n in cfg["sizes"]:
        out.append(list(flat[a:a + n]))
        a += n
    return out


@adapter("newton")
def newton(cfg, lib):
    from wax.modules.optax_optimizer import OptaxOptimizer
    from wax.optim import newton as make
    from wax.optim.newton import scale_by_newton

    lr, eps = unproj(cfg["lr"]), unproj(cfg["eps"])
    rate = (lambda n: jnp.where(n % 2 == 1, 2 * lr, lr)) if cfg["sched"] else lr
    opt = scale_by_newton(eps=eps) if cfg["raw"] else make(rate, eps=eps)

    class Step(hk.Module):
        def __call__(self, *g):
            return step(*g)

    def build(*g):
        return Step()(*g)

    def step(*g):
        grads = tree(cfg, split(cfg, g))
        params = jax.tree_util.tree_map(jnp.zeros_like, grads)
        if cfg["via"] == "module":  # applied to zero parameters, the new ones are the updates
            return OptaxOptimizer(opt)(params, grads)
        state = hk.get_state("s", [], init=lambda *_: opt.init(params))
        u, state = opt.update(grads, state, params) if cfg["via"] == "params" else opt.update(grads, state)
        hk.set_state("s", state)
        if jax.tree_util.tree_structure(u) != jax.tree_util.tree_structure(grads) or [a.shape for a in jax.tree_util.tree_leaves(u)] != [a.shape for a in jax.tree_util.tree_leaves(grads)]:
            raise Mismatch("structure of the updates")
        return optax.apply_updates(params, u)

    def post(o, s):
        return [v for leaf in jax.tree_util.tree_leaves(o) for v in leaf.reshape(-1)]

    return build, post
