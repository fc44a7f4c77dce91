"""Adapters of OHLC."""
from modlib import adapter
from winlib import mods


@adapter("ohlc")
def ohlc(cfg, lib):
    m = mods(lib, "ohlc")
    post = lambda o, s: [o.OPEN, o.HIGH, o.LOW, o.CLOSE]  # noqa: E731
    if lib == "hk":
        return (lambda x, r: m.OHLC()(x, reset_on=r)), post
    return (lambda: m.create_ohlc()), post
