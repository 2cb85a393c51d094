"""Continuous draws behind a seam: a generator whose every draw the simulator decides (ordinary, extreme quantiles, zeros,
repeats), may fail at the k-th, and which also stands in for numpy's global functions."""
import contextlib
import numpy as np
import scipy.special as sc

MODES = ("iid", "tails", "lower", "upper", "zero", "repeat")
LEGACY = ("normal", "standard_normal", "beta", "chisquare", "gamma", "standard_gamma", "exponential", "standard_exponential", "uniform", "random", "rand",
          "randn", "standard_t", "standard_cauchy", "multivariate_normal", "binomial", "poisson", "negative_binomial", "wald", "dirichlet")
EPS, BETA, GAMMA = 1e-12, 1e-6, 1e-4


class VGen(np.random.Generator):
    def __new__(cls, *a, **k):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, seed, modes=("iid",), fail_at=None, exc=None, budget=60):
        super().__init__(np.random.PCG64(seed))
        self.g = np.random.Generator(np.random.PCG64(seed + 1))
        self.modes, self.fail_at, self.exc, self.budget = list(modes), fail_at, exc, budget
        self.n, self.failed, self.last, self.odd = 0, False, {}, 0

    def deal(self, kind, v, lo=None, hi=None, zero=None):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at and not self.failed:
            self.failed = True
            raise self.exc("the generator failed at draw %d" % self.n)
        mode = self.modes[(self.n - 1) % len(self.modes)] if self.n <= self.budget else "iid"
        scalar = np.ndim(v) == 0
        v = np.array(v, dtype=float)
        if mode != "iid":
            self.odd += 1
            hit = self.g.random(v.shape) < 0.5
            side = self.g.random(v.shape) < 0.5
            if mode == "repeat":
                old = self.last.get((kind, v.shape, np.asarray(lo).tobytes(), np.asarray(hi).tobytes()))
                v = v if old is None else old.copy()
            elif mode == "zero" and zero is not None:
                if v.ndim:
                    hit = np.broadcast_to(np.arange(v.shape[-1]) == self.g.integers(max(1, v.shape[-1] - 1)), v.shape) & (v.shape[-1] > 1)          # one zero per row, never its last entry
                v = np.where(hit, zero, v)
            elif lo is not None:
                side = side if mode == "tails" else np.full(v.shape, mode == "lower")
                v = np.where(hit, np.where(side, lo, hi), v)
        self.last[(kind, v.shape)] = self.last[(kind, v.shape, np.asarray(lo).tobytes(), np.asarray(hi).tobytes())] = v.copy()
        return float(v) if scalar else v

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, float), np.asarray(scale, float)
        return self.deal("normal", self.g.normal(loc, scale, size), loc - 7.5 * scale, loc + 7.5 * scale, loc * 1.0)

    def standard_normal(self, size=None, dtype=float, out=None):
        return self.normal(0.0, 1.0, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        return self.deal("uniform", self.g.uniform(low, high, size), low, high - (high - low) * EPS, low)

    def random(self, size=None, dtype=float, out=None):
        return self.uniform(0.0, 1.0, size)

    def beta(self, a, b, size=None):
        return self.deal("beta", self.g.beta(a, b, size), sc.betaincinv(a, b, BETA), 1 - sc.betaincinv(b, a, BETA), 0.5)

    def standard_gamma(self, shape, size=None, dtype=float, out=None):
        a = np.asarray(shape, float)
        return self.deal("gamma", self.g.standard_gamma(a, size), sc.gammaincinv(a, GAMMA), sc.gammainccinv(a, EPS))

    def gamma(self, shape, scale=1.0, size=None):
        if size is None:
            size = np.broadcast_shapes(np.shape(shape), np.shape(scale)) or None
        return self.standard_gamma(shape, size) * scale

    def chisquare(self, df, size=None):
        return 2.0 * self.standard_gamma(np.asarray(df, float) / 2.0, size)

    def exponential(self, scale=1.0, size=None):
        if size is None:
            size = np.shape(scale) or None
        return self.deal("exponential", self.g.standard_exponential(size), 1e-16, 30.0, 1e-16) * scale

    def standard_exponential(self, size=None, dtype=float, method="zig", out=None):
        return self.exponential(1.0, size)

    def standard_t(self, df, size=None):
        return self.deal("t", self.g.standard_t(df, size), -1e4, 1e4, 0.0)

    def standard_cauchy(self, size=None):
        return self.deal("cauchy", self.g.standard_cauchy(size), -1e8, 1e8, 0.0)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, *, method="svd"):
        mean = np.asarray(mean, float)
        v = self.g.multivariate_normal(mean, cov, size, method="svd")
        return self.deal("mvn", v, mean - 7 * np.sqrt(np.diag(cov)), mean + 7 * np.sqrt(np.diag(cov)))

    def binomial(self, n, p, size=None):
        return np.asarray(self.deal("binomial", self.g.binomial(n, p, size), 0, n)).astype(int)

    def poisson(self, lam=1.0, size=None):
        return np.asarray(self.deal("poisson", self.g.poisson(lam, size), 0, 10 * np.asarray(lam) + 50)).astype(int)

    def negative_binomial(self, n, p, size=None):
        return np.asarray(self.deal("nb", self.g.negative_binomial(n, p, size), 0, 1000)).astype(int)

    def wald(self, mean, scale, size=None):
        return self.deal("wald", self.g.wald(mean, scale, size), 1e-6 * np.asarray(mean), 1e3 * np.asarray(mean))

    def dirichlet(self, alpha, size=None):
        a = np.asarray(alpha, float)
        shape = ((size,) if np.ndim(size) == 0 and size is not None else tuple(size or ())) + a.shape
        z = np.asarray(self.standard_gamma(np.broadcast_to(a, shape), shape))
        return z / z.sum(-1, keepdims=True)

    def rand(self, *s):
        return self.uniform(0.0, 1.0, s or None)

    def randn(self, *s):
        return self.normal(0.0, 1.0, s or None)


@contextlib.contextmanager
def patched(gen):
    """numpy's global functions and unseeded default_rng() answer from gen"""
    nr = np.random
    old = {k: getattr(nr, k) for k in LEGACY + ("seed", "default_rng")}
    for k in LEGACY:
        setattr(nr, k, getattr(gen, k))
    nr.seed = lambda s=None: None
    nr.default_rng = lambda seed=None: seed if isinstance(seed, np.random.Generator) else gen
    try:
        yield gen
    finally:
        for k, v in old.items():
            setattr(nr, k, v)
