"""Integer-typed arguments mean the same as the equal floating-point ones."""
import numpy as np


def same(h, label, f, *args):
    """lists of whole numbers are given to f as arrays of either type, whole numbers as scalars of either type."""
    def cast(x, kind):
        if isinstance(x, list):
            return np.array(x, dtype=kind)
        return kind(x) if type(x) is int else x
    got = f(*[cast(x, int) for x in args])
    h.eq(label, got, f(*[cast(x, float) for x in args]))
