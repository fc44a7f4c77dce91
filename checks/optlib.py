"""Adapters of the online optimisers."""
import flax.linen as nn
import haiku as hk
import jax
import jax.numpy as jnp
import optax
from modcheck import UNSEEN
from modlib import Mismatch, adapter
from vlib import unproj

F = jnp.float64


def optimizer(cfg):
    lr, d = unproj(cfg["lr"]), unproj(cfg["d"])
    return {"sgd": lambda: optax.sgd(lr), "mom": lambda: optax.sgd(lr, momentum=d),
            "sched": lambda: optax.sgd(lambda n: jnp.where(n % 2 == 1, 2 * lr, lr)),
            "decay": lambda: optax.chain(optax.add_decayed_weights(d), optax.sgd(lr))}[cfg["opt"]]()


def predicate(cfg):
    """None when all parameters are trainable and the predicate is left out"""
    names = cfg["names"]
    on = {k for k, t in zip((("a", "w"), ("a", "b"), ("c", "s")) if names == "distinct" else (("a", "w"), ("b", "w"), ("c", "w")), cfg["train"]) if t}
    if all(cfg["train"]) and cfg["bare"]:
        return None
    if names == "distinct":
        return lambda m, n, v: any(n == k[1] for k in on)
    return lambda m, n, v: any(m.endswith(k[0]) for k in on)


def where(cfg):
    return [("a", "w"), ("a", "b"), ("c", "s")] if cfg["names"] == "distinct" else [("a", "w"), ("b", "w"), ("c", "w")]


def fit(cfg):
    if cfg["loss"] == "quad":
        return lambda y, q: 0.5 * (q - y) ** 2
    return lambda y, q: q - y


# ---------------------------------------------------------------- Haiku
class Leaf(hk.Module):
    def __call__(self, name, value):
        return hk.get_parameter(name, (), F, lambda s, d: jnp.full(s, value, d))


def hk_predict(cfg):
    p0 = [unproj(v) for v in cfg["p0"]]

    def f(x):
        mods = {}
        w = []
        for (m, n), v in zip(where(cfg), p0):
            if m not in mods:
                mods[m] = Leaf(name=m)
            w.append(mods[m](n, v))
        q = sum(a * b for a, b in zip(w, x))
        if cfg["st"]:
            c = hk.get_state("count", (), F, jnp.zeros)
            hk.set_state("count", c + 1)
            q = q + c
        return q

    return f


class Outer(hk.Module):
    """nested names: outer/a, outer/b .."""
    def __init__(self, f):
        super().__init__(name="outer")
        self.f = f

    def __call__(self, x):
        return self.f(x)


def hk_loss(cfg, shape="pair"):
    q = hk_predict(cfg)
    loss = fit(cfg)

    def f(x, y):
        r = Outer(q)(x) if cfg["deep"] else q(x)
        return (loss(y, r), r) if shape == "pair" else loss(y, r)

    return f


def leaf_of(params, cfg, k):
    m, n = where(cfg)[k]
    hit = [v[n] for key, v in params.items() if (key == m or key.endswith("/" + m)) and n in v]
    if len(hit) != 1:
        raise Mismatch(f"parameter {m}/{n} in {list(params)}")
    return hit[0]


def only(params, cfg):
    """the trainable parameters, and nothing else"""
    n = sum(len(v) for v in params.values())
    if n != sum(cfg["train"]):
        raise Mismatch(f"{n} parameters returned")
    return [leaf_of(params, cfg, k) for k in range(3) if cfg["train"][k]]


def reg_hk(cfg):
    r = unproj(cfg["rho"])
    return (lambda w: 0.5 * r * sum(jnp.sum(a ** 2) for a in jax.tree_util.tree_leaves(w))) if r else None


def clip(cfg):
    b = unproj(cfg["clip"])
    return (lambda w, *a: jax.tree_util.tree_map(lambda v: jnp.clip(v, -b, b), w)) if b else None


def wrap(opt, cfg, cls):
    return cls(opt) if cfg["wrapped"] else opt


@adapter("hkonline")
def hkonline(cfg, lib):
    from wax.modules import OnlineOptimizer
    from wax.modules.optax_optimizer import OptaxOptimizer

    f = hk_loss(cfg)
    model = hk.transform_with_state(f) if cfg["pure"] else f
    pred = predicate(cfg)
    kw = {} if pred is None else dict(params_predicate=pred)
    if clip(cfg):
        kw["project_params"] = clip(cfg)
    if reg_hk(cfg):
        kw["regularize_loss"] = reg_hk(cfg)

    def build(a, b, c, y, *g):
        return OnlineOptimizer(model, wrap(optimizer(cfg), cfg, OptaxOptimizer), return_params=True, **kw)((a, b, c), y)

    def post(o, s):
        if o._fields != ("loss", "model_info", "params"):
            raise Mismatch(f"fields {o._fields}")
        return [o.loss, o.model_info] + [leaf_of(o.params, cfg, k) for k in range(3)]

    return build, post


@adapter("hkfunc")
def hkfunc(cfg, lib):
    from wax.modules.func_optimizer import FuncOptimizer
    from wax.modules.optax_optimizer import OptaxOptimizer

    pred = predicate(cfg)
    kw = dict(params_predicate=pred) if pred is not None or cfg["pure"] else {}

    def build(a, b, c, y, *g):
        return FuncOptimizer(hk_loss(cfg), OptaxOptimizer(optimizer(cfg)), has_aux=True, grads_fill_nan_inf=cfg["nan"] == "zero", **kw)((a, b, c), y)

    def post(o, s):
        (loss, q), params = o
        return [loss, q] + only(params, cfg)

    return build, post


@adapter("hklearner")
def hklearner(cfg, lib):
    from wax.modules import OnlineSupervisedLearner
    from wax.modules.optax_optimizer import OptaxOptimizer

    q = hk_predict(cfg)
    model = (lambda x: Outer(q)(x)) if cfg["deep"] else q

    def build(a, b, c, y, *g):
        kw = {} if cfg["nan"] == "zero" and cfg["bare"] else dict(grads_fill_nan_inf=cfg["nan"] == "zero")
        return OnlineSupervisedLearner(model, wrap(optimizer(cfg), cfg, OptaxOptimizer), fit(cfg), **kw)((a, b, c), y)

    def post(o, s):
        r, info = o
        return [info.loss, r] + [leaf_of(info.params, cfg, k) for k in range(3)]

    return build, post


@adapter("given")
def given(cfg, lib):
    """the caller holds the trainable parameters"""
    from wax.modules import UpdateParams
    from wax.modules.update_params import get_init_params

    f = hk_loss(cfg)
    pred = predicate(cfg)
    kw = dict(params_predicate=pred) if pred is not None or cfg["pure"] else {}

    def build(a, b, c, y, *g):
        first = only(get_init_params(f, (a, b, c), y, **kw), cfg)
        params = {}
        for (m, n), v, t in zip(where(cfg), g, cfg["train"]):
            if t:
                params.setdefault("outer/" + m if cfg["deep"] else m, {})[n] = v
        return tuple(UpdateParams(f, **kw)(params, (a, b, c), y)) + tuple(first)

    return build, lambda o, s: list(o)


# ---------------------------------------------------------------- Flax
class FLeaf(nn.Module):
    names: tuple
    values: tuple

    @nn.compact
    def __call__(self):
        return [self.param(n, lambda k, v=v: jnp.full((), v, F)) for n, v in zip(self.names, self.values)]


class FPredict(nn.Module):
    names: str
    p0: tuple
    st: bool

    @nn.compact
    def __call__(self, x):
        if self.names == "distinct":
            w = FLeaf(("w", "b"), self.p0[:2], name="a")() + FLeaf(("s",), self.p0[2:], name="c")()
        else:
            w = sum([FLeaf(("w",), (v,), name=m)() for m, v in zip("abc", self.p0)], [])
        q = sum(a * b for a, b in zip(w, x))
        if self.st:
            c = self.variable("count", "n", lambda: jnp.zeros((), F))
            q = q + c.value
            c.value = c.value + 1
        return q


class FLoss(nn.Module):
    names: str
    p0: tuple
    st: bool
    loss: str
    shape: str = "pair"

    @nn.compact
    def __call__(self, x, y):
        q = FPredict(self.names, self.p0, self.st, name="net")(x) if self.names == "distinct" else FPredict.__call__(self, x)
        v = fit(dict(loss=self.loss))(y, q)
        return {"pair": (v, q), "loss": v, "triple": (v, q, 2 * q), "alone": (v,)}[self.shape]


def fx_model(cfg, cls=FLoss):
    p0 = tuple(unproj(v) for v in cfg["p0"])
    return cls(cfg["names"], p0, cfg["st"], *([cfg["loss"], cfg["shape"]] if cls is FLoss else []))


def told(aux, cfg):
    """the prediction among the auxiliary outputs of the loss"""
    if cfg["shape"] == "loss":
        if aux is not None:
            raise Mismatch(f"auxiliary output {aux}")
        return UNSEEN
    if cfg["shape"] == "triple":
        if len(aux) != 2:
            raise Mismatch(f"auxiliary outputs {aux}")
        q, d = jnp.asarray(aux[0]), jnp.asarray(aux[1])
        return jnp.where((d == 2 * q) | (jnp.isnan(d) & jnp.isnan(q)), q, -123456789.0)
    return aux


def flat(tree):
    out = {}

    def go(t, path):
        for k, v in t.items():
            if hasattr(v, "items"):
                go(v, path + (k,))
            else:
                out[path + (k,)] = v
    go(tree, ())
    return out


def pick(tree, cfg, ks):
    f = flat(tree)
    r = []
    for k in ks:
        m, n = where(cfg)[k]
        hit = [v for path, v in f.items() if path[-1] == n and path[-2].split("/")[-1] == m]
        if len(hit) != 1:
            raise Mismatch(f"parameter {m}/{n} in {list(f)}")
        r.append(hit[0])
    if len(f) != len(ks):
        raise Mismatch(f"{len(f)} leaves")
    return r


def trained(cfg):
    return [k for k in range(3) if cfg["train"][k]]


@adapter("fxonline")
def fxonline(cfg, lib):
    from wax.flax.modules.online_optimizer import OnlineOptimizer, create_online_optimizer
    from wax.flax.modules.optax_optimizer import OptaxOptimizer

    if cfg["model"] == "flax":
        model = fx_model(cfg)
    else:
        f = hk_loss(cfg)
        model = hk.transform_with_state(f) if cfg["pure"] else f
    r = unproj(cfg["rho"])
    pred = predicate(cfg)
    kw = {}
    if pred is not None:
        kw["params_predicate"] = pred
    if clip(cfg):
        kw["project_params"] = clip(cfg)
    if r:
        kw["regularize_loss"] = lambda loss, w, aux: loss + 0.5 * r * sum(jnp.sum(a ** 2) for a in jax.tree_util.tree_leaves(w))

    class M(nn.Module):
        @nn.compact
        def __call__(self, a, b, c, y, *g):
            opt = wrap(optimizer(cfg), cfg, OptaxOptimizer)
            o = (OnlineOptimizer if cfg["deep"] else create_online_optimizer)(model=model, opt=opt, **kw)((a, b, c), y)
            return o.loss, o.aux, o.params, o.grads

    def post(o, s):
        loss, aux, params, grads = o
        return [loss, told(aux, cfg) if cfg["model"] == "flax" else aux] + pick(params, cfg, range(3)) + pick(grads, cfg, trained(cfg))

    return M, post


@adapter("fxfunc")
def fxfunc(cfg, lib):
    from wax.flax.modules.func_optimizer import FuncOptimizer, create_func_optimizer
    from wax.flax.modules.optax_optimizer import OptaxOptimizer

    pred = predicate(cfg)
    kw = {} if pred is None else dict(params_predicate=pred)

    class M(nn.Module):
        @nn.compact
        def __call__(self, a, b, c, y, *g):
            return (FuncOptimizer if cfg["deep"] else create_func_optimizer)(fun=fx_model(cfg), opt=wrap(optimizer(cfg), cfg, OptaxOptimizer), has_aux=cfg["shape"] != "loss" or cfg["pure"], **kw)((a, b, c), y)

    def post(o, s):
        first, grads, info = o
        loss, q = first if cfg["shape"] != "loss" or cfg["pure"] else (first, None)
        return [loss, told(q, cfg)] + pick(grads, cfg, trained(cfg))

    return M, post


@adapter("fxlearner")
def fxlearner(cfg, lib):
    from wax.flax.modules import online_supervised_learner as osl

    pred = predicate(cfg)
    loss = fit(cfg)
    kw = dict(model=fx_model(cfg, FPredict), loss_fn=lambda q, y: loss(y, q), opt=optimizer(cfg))
    if pred is not None:
        kw["params_predicate"] = pred

    class M(nn.Module):
        @nn.compact
        def __call__(self, a, b, c, y, *g):
            return (osl.OnlineSupervisedLearner if cfg["deep"] else osl.create_online_supervised_learner)(**kw)((a, b, c), y)

    def post(o, s):
        q, info = o
        return [info["loss"], q] + pick(info["grads"], cfg, trained(cfg))

    return M, post
