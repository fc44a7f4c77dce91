"""Adapters of the advanced state patterns: sessions that drive whole histories."""
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from modlib import KEY, Mismatch, adapter
from vlib import unproj

CALLS = []
PAD = -77.0


class Acc(nn.Module):
    """adds what it receives and answers multiples of its total"""
    tag: int
    keys: tuple
    a: tuple
    bare: bool = False
    fail: str = "never"
    read: str = "s"

    @nn.compact
    def __call__(self, x):
        CALLS.append(self.tag)
        v = x.get(self.read, 0.0) if isinstance(x, dict) else x
        if self.fail == "always" or (self.fail == "neg" and float(v) < 0):
            raise RuntimeError(f"no {self.tag}")
        t = self.variable("state", "total", lambda: jnp.zeros(()))
        t.value = t.value + v
        return self.a[0] * t.value if self.bare else {k: c * t.value for k, c in zip(self.keys, self.a)}


def comps(cfg):
    """names such that the declaration order is not the alphabetical one"""
    names = [f"{'zyxwvut'[i]}{i}" for i in range(len(cfg["comps"]))]
    mods = {n: Acc(i + 1, tuple(c["keys"]), tuple(unproj(v) for v in c["a"]), c["bare"], c["fail"], c["read"]) for i, (n, c) in enumerate(zip(names, cfg["comps"]))}
    deps = {n: [names[d - 1] if d <= len(names) else "absent" for d in c["deps"]] for n, c in zip(names, cfg["comps"]) if c["deps"]}
    return names, mods, deps or None


def flat_ans(o, cfg, names, ordered):
    if sorted(o) != sorted(names) or (ordered and list(o) != names):
        raise Mismatch(f"components {list(o)}")
    rows = []
    for i, (n, c) in enumerate(zip(names, cfg["comps"])):
        a = o[n]
        if isinstance(a, dict) and "error" in a:
            if a != {"error": f"no {i + 1}", "status": "failed"} or c["fail"] == "never":
                raise Mismatch(f"failure {a}")
            rows += [np.nan] * len(c["a"])
        elif c["bare"]:
            rows.append(a)
        else:
            if sorted(a) != sorted(c["keys"]):
                raise Mismatch(f"keys {list(a)}")
            rows += [a[k] for k in c["keys"]]
    return rows


def inputs(cfg, row):
    ks = cfg.get("inkeys") or []
    return {k: row[i] for i, k in enumerate(ks)} if ks else row[0]


def ordered_ok(o, cfg):
    """o respects the dependencies, when they are not circular"""
    n = len(cfg["comps"])
    deps = [{d for d in c["deps"] if d <= n} for c in cfg["comps"]]
    if sorted(o) != list(range(1, n + 1)):
        return False
    reach = [set(d) for d in deps]
    for _ in range(n):
        reach = [r | set().union(*[reach[j - 1] for j in r]) if r else r for r in reach]
    if any(i + 1 in r for i, r in enumerate(reach)):
        return True
    return all(deps[k - 1] <= set(o[:j]) for j, k in enumerate(o))


@adapter("patterns")
def patterns(cfg, lib):
    from wax.flax.core import advanced_state_patterns as P

    hsm = cfg["kind"] == "hsm"
    names, mods, deps = comps(cfg)
    deco = cfg.get("decorated")
    if hsm:
        m = P.HierarchicalStateMachine(mods, deps, cfg["strat"])
    else:
        m = P.CompositeStateManager(mods, cfg["strat"])
    if deco:
        if hsm:
            f = P.streaming_state_machine(mods, deps, cfg["strat"])(lambda o, a: (o, a))
        else:
            f = P.streaming_compose_states(*mods.values(), strategy=cfg["strat"])(lambda o, a: (o, a))
            names = [f"pattern_{i}" for i in range(len(names))]
    take = lambda o: flat_ans(o, cfg, names, not hsm)

    def one(how, xs):
        """outputs of one history, and the orders of execution"""
        orders = []

        def counters(v):
            if not hsm:
                return []
            c = v["state"]["coordination"] if not deco else find(v, "coordination")
            return [c["last_updates"][i] for i in range(len(names))]

        def ran(fn, *a):
            CALLS.clear()
            r = fn(*a)
            orders.append(list(CALLS))
            return r

        if deco:
            p, s = ran(f.init, KEY, inputs(cfg, xs[0]))
            o0, _ = m.init_with_output(KEY, inputs(cfg, xs[0]))
            o0 = dict(zip(names, o0.values())) if not hsm else o0
            rows = [jnp.stack([jnp.asarray(z, dtype=float) for z in take(o0) + counters(s)])]
            for x in xs[1:]:
                (o, a), s = ran(f.apply, p, s, None, inputs(cfg, x))
                if not jax.tree_util.tree_all(jax.tree_util.tree_map(lambda u, w: np.array_equal(u, w), a, inputs(cfg, x))):
                    raise Mismatch("argument")
                rows.append(jnp.stack([jnp.asarray(z, dtype=float) for z in take(o) + counters(s)]))
            return jnp.stack(rows), orders

        o, v = ran(m.init_with_output, KEY, inputs(cfg, xs[0]))
        row = lambda o, v: jnp.stack([jnp.asarray(z, dtype=float) for z in take(o) + counters(v)])
        first = row(o, v)
        mutable = [k for k in v if k != "params"] or ["state"]

        def step(v, x):
            o, u = m.apply(v, inputs(cfg, x), mutable=mutable)
            u = {**v, **u}
            return u, row(o, u)

        if how == "eager":
            rows = [first]
            for x in xs[1:]:
                v, r = ran(step, v, x)
                rows.append(r)
            return jnp.stack(rows), orders
        _, rest = jax.lax.scan(step, v, xs[1:])
        return jnp.concatenate([first[None], rest]), orders

    def session(job, x):
        xs = jnp.asarray(x)
        if job["how"] == "vmap":
            return np.asarray(jax.jit(jax.vmap(lambda h: one("scan", h)[0]))(xs))
        ys = []
        for h in (xs if not any(c["fail"] == "neg" for c in cfg["comps"]) else x):
            y, orders = one(job["how"], h)
            y = np.asarray(y)
            if hsm and not all(ordered_ok(o, cfg) for o in orders):
                raise Mismatch(f"order {orders}")
            if not hsm and not all(o == list(range(1, len(names) + 1)) for o in orders):
                raise Mismatch(f"order {orders}")
            if job.get("order"):
                y = np.concatenate([y, np.array(orders, dtype=float)], axis=1)
            ys.append(y)
        return np.stack(ys)

    return session


def find(tree, key):
    if hasattr(tree, "items"):
        for k, v in tree.items():
            if k == key:
                return v
            r = find(v, key)
            if r is not None:
                return r
    return None


def sharpen(params, cfg):
    """identity encoders, and a query sharp enough to select the closest items"""
    E, H = cfg["embed"], cfg["heads"]
    eye = np.eye(E)
    out = {}
    for k, v in params.items():
        if k in ("state_encoder", "query_encoder"):
            out[k] = dict(kernel=jnp.asarray(eye), bias=jnp.zeros(E))
        else:
            assert k == "attention", k
            sub = {}
            for n, w in v.items():
                if n == "out":
                    sub[n] = dict(kernel=jnp.asarray(eye.reshape(H, E // H, E)), bias=jnp.zeros(E))
                else:
                    sub[n] = dict(kernel=jnp.asarray((1e4 if n == "query" else 1.0) * eye.reshape(E, H, E // H)), bias=jnp.zeros((H, E // H)))
            out[k] = sub
    if jax.tree_util.tree_map(jnp.shape, out) != jax.tree_util.tree_map(jnp.shape, dict(params)):
        raise Mismatch("parameters")
    return out


@adapter("attention")
def attention(cfg, lib):
    from wax.flax.core import advanced_state_patterns as P

    E, L, K = cfg["embed"], cfg["len"], cfg["top"]
    kw = dict(embed_dim=E, num_heads=cfg["heads"], max_history_length=L)
    form = cfg.get("form", "vector")

    def given(v):
        if form == "dict":
            return {f"k{9 - i}": (jnp.asarray(a) if i % 2 else float(a)) for i, a in enumerate(v)}
        if form == "split":  # several entries in one
            return {"b": jnp.asarray(v[:1]), "a": jnp.asarray(v[1:])} if len(v) > 1 else {"b": jnp.asarray(v)}
        if form == "numpy":
            return {"b": np.float32(v[0]), "a": np.asarray(v[1:])}
        if form == "number":
            return jnp.asarray(v[0])
        return jnp.asarray(v)

    def padded(rows, k):
        rows = np.asarray(rows)
        if rows.ndim != 2 or rows.shape[1] != E or len(rows) > k:
            raise Mismatch(f"history {rows.shape}")
        return list(np.concatenate([rows, np.full((k - len(rows), E), PAD)]).ravel())

    def weights(w, k):
        return list(np.concatenate([np.asarray(w), np.full(k - len(w), PAD)]))

    def row(o, v, x):
        c = given(x)
        cs = o["current_state"]
        if set(o) != {"enhanced_state", "original_state", "relevant_history", "attention_weights", "current_state"} or jax.tree_util.tree_structure(cs) != jax.tree_util.tree_structure(c):
            raise Mismatch(f"answer {sorted(o)}")
        h, w = o["relevant_history"], o["attention_weights"]
        if len(h) != len(w):
            raise Mismatch("weights")
        return list(o["enhanced_state"]) + list(o["original_state"]) + [len(h)] + weights(w, L) + padded(h, L)

    def relevant(m, v, x):
        r, w = m.apply(v, given(x), K, method=m.get_relevant_states)
        return [len(r)] + weights(w, K) + padded(r, K)

    def session(job, x):
        m = P.AttentionBasedStateSelector(**kw)
        ys = []
        for seq in x:
            v0, u0 = seq[0][:-1], bool(seq[0][-1])
            if cfg.get("decorated"):
                f = P.streaming_attention_state(embed_dim=E, num_heads=cfg["heads"], max_history=L)(lambda o, a: (o, a))
                p, s = f.init(KEY, given(v0))
                (scope, pp), = p["params"].items() if "params" in p else p.items()
                raise_if = scope.startswith("AttentionBasedStateSelector")
                if not raise_if:
                    raise Mismatch(scope)
            v = m.init(KEY, given(v0))
            sharp = sharpen(v["params"], cfg)
            # the first step again, with the sharp parameters and no history
            st = {"history": jnp.zeros((L, E)), "pointer": 0, "size": 0}
            o, u = m.apply({"params": sharp, "state": st}, given(v0), u0, mutable=["state"])
            v = {"params": sharp, "state": u["state"]}
            rows = [row(o, v, v0) + relevant(m, v, v0)]
            for e in seq[1:]:
                xx, use = e[:-1], bool(e[-1])
                if cfg.get("decorated"):
                    (o, a), s2 = f.apply(wrap(p, scope, sharp), wrap_state(s, scope, v["state"]), None, given(xx))
                    v = {"params": sharp, "state": find_state(s2)}
                else:
                    o, u = m.apply(v, given(xx), use, mutable=["state"])
                    v = {**v, **u}
                rows.append(row(o, v, xx) + relevant(m, v, xx))
            ys.append(np.array([[float(b) for b in r] for r in rows]))
        return np.stack(ys)

    return session


def wrap(p, scope, sharp):
    return {"params": {scope: sharp}} if "params" in p else {scope: sharp}


def wrap_state(s, scope, st):
    return {"state": {scope: st}}


def find_state(s):
    (sub,) = s["state"].values()
    return sub
