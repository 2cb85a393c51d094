"""What a caller handed to the library, and whether it still is what was handed over, bit for bit."""
import numpy as np
import pandas as pd


class Ledger:
    def __init__(self):
        self.items = []

    def give(self, label, obj):
        self.items.append((label, obj, snap(obj)))
        return obj

    def changed(self):
        for label, obj, before in self.items:
            d = diff(snap(obj), before, label)
            if d:
                return d
        return None


LEDGER = None


def given(obj, label="argument"):
    """mark an argument the caller builds for one call"""
    if LEDGER is not None:
        LEDGER.give(label, obj)
    return obj


def snap(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objarr", o.shape, [snap(x, depth + 1) for x in o.reshape(-1)])
        return ("arr", str(o.dtype), o.shape, o.flags.writeable, o.tobytes())
    if isinstance(o, pd.DataFrame):
        return ("frame", [repr(c) for c in o.columns], snap(o.index.values), [(str(o.dtypes.iloc[j]), snap(o.iloc[:, j].values, depth + 1)) for j in range(o.shape[1])],
                tuple(o.columns.names), tuple(o.index.names))
    if isinstance(o, pd.Series):
        return ("series", str(o.dtype), str(o.name), snap(o.index.values), snap(o.values, depth + 1))
    if hasattr(o, "indptr") and hasattr(o, "data"):
        return ("sparse", o.shape, snap(o.data), snap(o.indices), snap(o.indptr))
    if isinstance(o, dict):
        return ("dict", [(repr(k), snap(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(v, depth + 1) for v in o])
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(map(repr, o)))
    if isinstance(o, (int, float, complex, str, bool, type(None), np.generic)):
        return ("scalar", type(o).__name__, repr(o))
    if hasattr(o, "__dataclass_fields__"):
        return ("data", type(o).__name__, [(k, snap(getattr(o, k), depth + 1)) for k in o.__dataclass_fields__])
    return ("other", id(o))


def diff(a, b, path):
    """where two snapshots differ, in words, or None"""
    if a == b:
        return None
    if type(a) is tuple and type(b) is tuple and len(a) == len(b) and a and b and a[0] == b[0]:
        if a[0] == "arr":
            if a[1:4] != b[1:4]:
                return "%s: dtype, shape or flags changed from %s to %s" % (path, b[1:4], a[1:4])
            x, y = np.frombuffer(a[4], np.uint8), np.frombuffer(b[4], np.uint8)
            k = int(np.flatnonzero(x != y)[0]) // max(1, np.dtype(a[1]).itemsize)
            n = len(set((np.flatnonzero(x != y) // max(1, np.dtype(a[1]).itemsize)).tolist()))
            return "%s: %d elements of an array of shape %s changed (first at flat index %d)" % (path, n, a[2], k)
        if a[0] == "dict":
            ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
            if ka != kb:
                return "%s: keys changed from %s to %s" % (path, kb, ka)
            for (k, x), (_, y) in zip(a[1], b[1]):
                d = diff(x, y, "%s[%s]" % (path, k))
                if d:
                    return d
        if a[0] == "frame":
            if a[1] != b[1]:
                return "%s: columns changed from %s to %s" % (path, b[1], a[1])
            for c, x, y in zip(a[1], a[3], b[3]):
                if x != y:
                    return "%s column %s: %s" % (path, c, diff(x[1], y[1], "values") or "dtype %s to %s" % (y[0], x[0]))
            return "%s: index changed" % path
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                    for j, (p, q) in enumerate(zip(x, y)):
                        if p != q:
                            return diff(p, q, "%s[%d]" % (path, j)) or "%s[%d] changed" % (path, j)
                return diff(x, y, path) or "%s changed from %s to %s" % (path, str(y)[:120], str(x)[:120])
    return "%s changed from %s to %s" % (path, str(b)[:120], str(a)[:120])
