"""Give a value to the attribute behind a read-only property, whatever its name."""
import numpy as np


def slot(obj, prop):
    """Name of the attribute of obj that the property shows (found by marking them)."""
    d = vars(obj)
    for k in sorted(d, key=lambda k: k.lstrip('_') != prop):
        old = d[k]
        it = object()
        mark = np.array([it, it], dtype=object)
        d[k] = mark
        try:
            got = getattr(obj, prop)
            if got is mark or isinstance(got, np.ndarray) and got.shape == (2,) and got[0] is it:
                return k
        except Exception:
            pass
        finally:
            d[k] = old
    return '_' + prop


def poke(obj, prop, value):
    vars(obj)[slot(obj, prop)] = value


def peek(obj, prop):
    """The array itself, where the property returns a copy."""
    return vars(obj)[slot(obj, prop)]
