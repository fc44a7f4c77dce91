"""Adapters of the compressed and hierarchical buffers."""
import jax
import jax.numpy as jnp
import numpy as np
from modlib import KEY, Mismatch, adapter
from vlib import unproj


def params_of(l):
    m = l["m"]
    if m == "ewma":
        return dict(alpha=unproj(l["alpha"]))
    if m == "quantile":
        return dict(percentiles=[unproj(q) for q in l["qs"]])
    if m == "downsample":
        return dict(factor=l["factor"])
    if m == "sketching":
        return dict(num_hashes=l["rows"], num_buckets=l["buckets"])
    return None


def make(cfg):
    from wax.flax.modules.compressed_buffer import CompressedBuffer, HierarchicalBuffer

    ls = cfg["levels"]
    if cfg["hier"]:
        m = HierarchicalBuffer(recent_maxlen=ls[0]["len"], medium_maxlen=ls[1]["len"], long_maxlen=ls[2]["len"],
                               medium_compression=ls[1]["m"], long_compression=ls[2]["m"], fill_value=unproj(ls[0]["fill"]))
    else:
        l = ls[0]
        m = CompressedBuffer(maxlen=l["len"], compression=l["m"], fill_value=unproj(l["fill"]), **({} if l.get("bare") else dict(compression_params=params_of(l))))
    memory(m, cfg)
    return m


def memory(m, cfg):
    """the reported sizes: 8 bytes an item of each level"""
    def size(l):
        return {"none": lambda: 8 * l["len"], "downsample": lambda: 8 * max(1, l["len"] // l["factor"]) + 4, "ewma": lambda: 12,
                "quantile": lambda: 8 * min(l["len"], 1000) + 8 * len(l["qs"]) + 4, "sketching": lambda: 8 * l["rows"] * l["buckets"] + 8 * l["rows"]}[l["m"]]()
    want = [size(l) for l in cfg["levels"]]
    if cfg["hier"]:
        u = m.get_total_memory_usage()
        if [u["recent"], u["medium"], u["long"], u["total"]] != want + [sum(want)] or abs(u["compression_ratio"] - 8 * sum(l["len"] for l in cfg["levels"]) / sum(want)) > 1e-9:
            raise Mismatch(f"memory {u}")
    elif m.get_memory_usage()["total"] != want[0]:
        raise Mismatch(f"memory {m.get_memory_usage()}")


def flat(o, cfg):
    if cfg["hier"]:
        if sorted(o) != ["input", "long", "medium", "recent"]:
            raise Mismatch(f"levels {sorted(o)}")
        parts = [o["recent"], o["medium"], o["long"]]
    else:
        parts = [o]
    rows = []
    for l, p in zip(cfg["levels"], parts):
        p = jnp.asarray(p)
        rows += [p] if l["m"] == "ewma" else [p[i] for i in range(p.shape[0])]
    return rows


@adapter("compress")
def compress(cfg, lib):
    return (lambda: make(cfg)), lambda o, s: flat(o, cfg)


@adapter("decorated")
def decorated(cfg, lib):
    """the decorators hand the summary to the function, with its arguments"""
    from wax.flax.modules.compressed_buffer import streaming_compressed_memory, streaming_hierarchical_memory

    ls = cfg["levels"]
    if cfg["hier"]:
        deco = streaming_hierarchical_memory(recent_maxlen=ls[0]["len"], medium_maxlen=ls[1]["len"], long_maxlen=ls[2]["len"],
                                             medium_compression=ls[1]["m"], long_compression=ls[2]["m"])
    else:
        deco = streaming_compressed_memory(maxlen=ls[0]["len"], compression=ls[0]["m"], compression_params=params_of(ls[0]))

    def session(job, x):
        ys = []
        for seq in x[:, :, 0]:
            f = deco(lambda levels, a, *r: (levels, a))
            p, s = f.init(KEY, jnp.asarray(seq[0]))
            # the initialisation records its input, its answer is not returned
            o0, _ = make(cfg).init_with_output(KEY, jnp.asarray(seq[0]))
            rows = [[float(b) for b in flat(o0, cfg)]]
            for v in seq[1:]:
                (lev, a), s = f.apply(p, s, None, jnp.asarray(v))
                if not np.array_equal(a, v, equal_nan=True):
                    raise Mismatch("argument")
                rows.append([float(b) for b in flat(lev, cfg)])
            ys.append(rows)
        return np.array(ys)

    return session


jax.config.update("jax_enable_x64", True)
