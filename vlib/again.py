"""Calls on arrays that held other values in an earlier call, whose results were overwritten since."""
import numpy as np

from vlib.harness import require


def _arrays(args):
    """The arrays among the arguments that can be filled with other values: writeable, and no element used twice."""
    out = []
    for a in args:
        if (isinstance(a, np.ndarray) and a.size and a.dtype.kind == "f" and a.flags.writeable and np.all(np.isfinite(a))
                and not any(s == 0 and n > 1 for s, n in zip(a.strides, a.shape)) and not any(np.shares_memory(a, b) for b in out)):
            out.append(a)
    return out


def _other(a):
    """Other values in the same range and order, with the same smallest and largest value; a grid remains a grid."""
    low, high = np.min(a), np.max(a)
    if low == high:
        return a * 0.875
    u = (a - low) / (high - low)
    return np.where((a == low) | (a == high), a, low + (high - low) * u * u)


def overwrite(result):
    for v in result if isinstance(result, (tuple, list)) else (result,):
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fc":
            v[...] = -77.0


def primed(fn, *args, **kwargs):
    """fn(*args, **kwargs), after a call with the same array objects holding other values, the results of which are overwritten."""
    arrays = _arrays(args)
    saved = [a.copy() for a in arrays]
    try:
        for a in arrays:
            a[...] = _other(a)
        overwrite(fn(*args, **kwargs))
    except Exception:
        pass                    # The values need not be acceptable; what counts is the call below.
    finally:
        for a, s in zip(arrays, saved):
            a[...] = s
    out = fn(*args, **kwargs)
    for i, (a, s) in enumerate(zip(arrays, saved)):
        require(np.array_equal(a, s), "array argument %d was changed: %s, was %s", i, a, s)
    return out
