"""The random stream behind a seam: a generator whose every draw is decided by the simulator.

`Dealer` decides each draw (ordinary, identity, constant, repeated, reversed ...), records what it dealt and
can make the k-th draw fail.  `SimGenerator` is a numpy Generator backed by a Dealer (for rng arguments);
`patched_numpy` routes the legacy global functions and unseeded default_rng() calls of the code under test
to a Dealer for the duration of a with block."""
import contextlib
import numpy as np

MODES_CHOICE = ("iid", "identity", "same", "few", "repeat", "missing")
MODES_PERM = ("iid", "identity", "reverse", "swap", "shift", "repeat")


class Dealer:
    def __init__(self, seed, modes=("iid",), fail_at=None, exc=None, degenerate=True):
        self.g = np.random.Generator(np.random.PCG64(seed))
        self.modes, self.fail_at, self.exc = list(modes) or ["iid"], fail_at, exc
        self.n = 0
        self.failed = False
        self.draws = []          # (kind, value) in the order dealt
        self.last = {}

    def _tick(self):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at and not self.failed:
            self.failed = True
            raise self.exc("the generator failed at draw %d" % self.n)
        return self.modes[(self.n - 1) % len(self.modes)]

    def _rec(self, kind, v):
        v = np.asarray(v)
        self.draws.append((kind, v.copy()))
        self.last[(kind, v.shape)] = v.copy()
        return v

    def indices(self, n, shape):
        """indices in [0, n) drawn with replacement"""
        mode = self._tick()
        g = self.g
        size = int(np.prod(shape))
        prev = self.last.get(("choice", tuple(shape)))
        if mode == "identity":
            v = np.arange(size) % n
        elif mode == "same":
            v = np.full(size, g.integers(n))
        elif mode == "few":
            k = max(1, n // 2)
            v = g.choice(g.permutation(n)[:k], size=size)
        elif mode == "missing":
            j = g.integers(n)
            v = g.integers(n, size=size)
            v = np.where(v == j, (j + 1) % n, v)
        elif mode == "repeat" and prev is not None and prev.max(initial=0) < n:
            v = prev.reshape(-1)
        else:
            v = g.integers(n, size=size)
        return self._rec("choice", v.reshape(shape))

    def perm(self, n):
        mode = self._tick()
        g = self.g
        prev = self.last.get(("perm", (n,)))
        if mode == "identity":
            v = np.arange(n)
        elif mode == "reverse":
            v = np.arange(n)[::-1]
        elif mode == "swap" and n > 1:
            v = np.arange(n)
            i, j = g.choice(n, 2, replace=False)
            v[i], v[j] = v[j], v[i]
        elif mode == "shift":
            v = np.roll(np.arange(n), 1)
        elif mode == "repeat" and prev is not None:
            v = prev
        else:
            v = g.permutation(n)
        return self._rec("perm", v.astype(np.int64))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        arr = None if np.ndim(a) == 0 else np.asarray(a)
        n = int(a) if arr is None else arr.shape[axis]
        shape = () if size is None else tuple(np.atleast_1d(size))
        if p is not None:
            self._tick()
            v = self._rec("choice_p", self.g.choice(n, size=size, replace=replace, p=p))
        elif not replace:
            k = int(np.prod(shape)) if shape else 1
            v = self.perm(n)[:k].reshape(shape)
        else:
            v = self.indices(n, shape)
        if arr is None:
            return v if shape else int(v)
        return np.take(arr, v, axis=axis)

    def permutation(self, x, axis=0):
        if np.ndim(x) == 0:
            return self.perm(int(x)).copy()
        x = np.asarray(x)
        return np.take(x, self.perm(x.shape[axis]), axis=axis)

    def shuffle(self, x, axis=0):
        v = self.perm(len(x) if axis == 0 else np.shape(x)[axis])
        if isinstance(x, np.ndarray):
            x[...] = np.take(x, v, axis=axis)
        else:
            x[:] = [x[i] for i in v]

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        shape = () if size is None else tuple(np.atleast_1d(size))
        v = self.indices(int(hi) - int(lo) + bool(endpoint), shape) + int(lo)
        return v.astype(dtype) if shape else int(v)

    def dealt(self, kind, n):
        """every vector of length n dealt, in order (a table of them is read row by row)"""
        out = []
        for k, v in self.draws:
            if k == kind and v.size and v.size % n == 0 and v.ndim >= 1 and v.shape[-1] == n:
                out.extend(v.reshape(-1, n))
        return out


class SimGenerator(np.random.Generator):
    def __new__(cls, dealer):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, dealer):
        super().__init__(np.random.PCG64(int(dealer.g.integers(2**31))))
        self.dealer = dealer

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        return self.dealer.choice(a, size, replace, p, axis, shuffle)

    def permutation(self, x, axis=0):
        return self.dealer.permutation(x, axis)

    def permuted(self, x, *, axis=None, out=None):
        if axis is None and np.ndim(x) == 1 and out is None:
            return self.dealer.permutation(x)
        return super().permuted(x, axis=axis, out=out)

    def shuffle(self, x, axis=0):
        return self.dealer.shuffle(x, axis)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        return self.dealer.integers(low, high, size, dtype, endpoint)


@contextlib.contextmanager
def patched_numpy(dealer):
    """the code under test sees dealer through np.random.<fn> and np.random.default_rng()"""
    nr = np.random
    old = {k: getattr(nr, k) for k in ("choice", "permutation", "shuffle", "randint", "default_rng")}
    sim = []

    def default_rng(seed=None):
        if seed is not None:
            return seed if isinstance(seed, np.random.Generator) else old["default_rng"](seed)
        if not sim:
            sim.append(SimGenerator(dealer))
        return sim[0]
    nr.choice, nr.permutation, nr.shuffle = dealer.choice, dealer.permutation, dealer.shuffle
    nr.randint = lambda low, high=None, size=None, dtype=int: dealer.integers(low, high, size, dtype)
    nr.default_rng = default_rng
    try:
        yield dealer
    finally:
        for k, v in old.items():
            setattr(nr, k, v)
