"""U01 unrolling (Haiku): Unroll.tla bound to every entry point of wax.unroll / wax.transform."""
import unrollcheck


def run(ck):
    unrollcheck.run(ck, "haiku")
    ck.assumptions.append("sequences are non empty after skip_first")
