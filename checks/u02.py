"""U02 unrolling (Flax): Unroll.tla (init consumes its item) bound to wax.flax.core."""
import unrollcheck


def run(ck):
    unrollcheck.run(ck, "flax")
    ck.assumptions.append("sequences are non empty after skip_first; Flax's init runs the module once (pinned by its tests)")
