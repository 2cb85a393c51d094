"""C07: parallel kernels on a simulated team of threads."""
import warnings
import numpy as np
from ..core import World
from .. import parsim, rngs

OPS = ("rowsum", "colsum", "colstd", "csd", "corr", "dist", "dist", "dcorr", "dcorr_perm", "dcorr_pvalue", "kernel", "kernel", "bandwidth", "dhsic", "dhsic_perm", "boot", "boot1")


def center_u(A):
    n = A.shape[0]
    B = A - A.sum(1)[:, None] / (n - 2) - A.sum(0)[None] / (n - 2) + A.sum() / ((n - 1) * (n - 2))
    np.fill_diagonal(B, 0)
    return B


def center_v(A):
    return A - A.mean(1)[:, None] - A.mean(0)[None] + A.mean()


def sqdist(X):
    return ((X[:, None, :] - X[None, :, :]) ** 2).sum(-1)


def dcorr(X, Y, unbiased):
    c = center_u if unbiased else center_v
    A, B = c(np.sqrt(sqdist(X))), c(np.sqrt(sqdist(Y)))
    return (A * B).mean() / np.sqrt((A * A).mean() * (B * B).mean())


def gauss(X, bw):
    return np.exp(-sqdist(X) / (2 * bw ** 2))


def hsic(X, Y, bx, by):
    K, L, n = gauss(X, bx), gauss(Y, by), len(X)
    return (K * L).sum() / n ** 2 + K.sum() * L.sum() / n ** 4 - 2 * (K.sum(0) * L.sum(0)).sum() / n ** 3


class W(World):
    prop = "C07"
    technique = ("deterministic simulation of a team of threads: the body of each parallel loop runs as one coroutine per thread, a seeded scheduler decides after every statement which thread goes on "
                 "(in order, at random, in turns, in bursts, one running ahead, one stalled to the end), and every result is compared with the mathematical definition")
    rule = ("a run calls 1-5 kernels or functions built on them with drawn data, team size 1-8, split of the iterations (blocks, uneven, interleaved) and scheduling policy; non-trivial: the team switched threads inside "
            "a parallel loop")
    states_measure = "distinct (function, rows, columns, team size, split, policy) tuples"
    real = ("Python source of the kernels of pystatsm.utilities.data_utils, pystatsm.misc.independence_tests, OLS.bootstrap_chol of pyglm2.ols and pyglm.linear_model, and the functions that call them")
    real = (real,)
    stub = ("numba's thread team (simulated: private scalars, per-thread reductions, shared arrays)", "numba compilation", "random numbers inside kernels (dealt by the simulator)")
    assumptions = ("a thread can be switched between any two statements of a parallel loop and between the read and the write of x[i] op= e, not inside one array expression or a function called from the loop",
                   "parallel loops reached from inside a parallel loop run in order, as numba runs them", "a loop of a kernel not compiled with parallel=True runs in order")
    quick_runs, thorough_runs = 6000, 400000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        import pystatsm.utilities.data_utils as du
        import pystatsm.misc.independence_tests as it
        import pystatsm.pyglm2.ols as o2
        import pystatsm.pyglm.linear_model as o1
        self.team, self.kernels = parsim.install(du, it, o2, o1)
        self.du, self.it, self.o = du, it, [next(v for v in vars(m).values() if isinstance(v, type) and hasattr(v, "bootstrap_chol")) for m in (o2, o1)]

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            ops.append(dict(op=r.choice(OPS), n=r.choice([2, 3, 4, 5, 6, 8, 11]), p=r.choice([1, 1, 2, 3, 5]), q=r.choice([1, 2, 3]), b=r.choice([1, 2, 3, 5, 8]), s=r.randrange(1 << 20), k=r.randrange(8),
                            team=dict(threads=r.choice([1, 2, 2, 3, 4, 8]), kind=r.choice(parsim.KINDS), chunks=r.choice(["blocks", "uneven", "interleaved"]), seed=r.randrange(1 << 30))))
        return dict(config=dict(seed=r.randrange(1 << 30)), ops=ops)

    def shrink_config(self, sc):
        for i, op in enumerate(sc["ops"]):
            for k, v in (("p", 1), ("q", 1), ("b", 1), ("b", 2), ("n", 2), ("n", 3), ("n", 4)):
                if op[k] > v:
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])
            t = op["team"]
            for k, v in (("threads", 1), ("threads", 2), ("kind", "seq"), ("kind", "robin"), ("chunks", "blocks")):
                if t[k] != v:
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, team=dict(t, **{k: v}))] + sc["ops"][i + 1:])

    def nontrivial(self, sc, res):
        return res["counts"].get("probe:switches", 0) > 0

    def execute(self, sc, ctx):
        self.ctx = ctx
        for i, op in enumerate(sc["ops"]):
            t = op["team"]
            self.team.set(t["seed"], t["kind"], t["threads"], t["chunks"])
            sw, loops = self.team.switches, self.team.loops
            d = rngs.Dealer(sc["config"]["seed"] + i, ["iid", "iid", "swap", "reverse"][: 1 + op["k"] % 4])
            a = np.random.default_rng(op["s"])
            ctx.count("op:" + op["op"])
            ctx.steps += 1
            self.d = d
            try:
                with rngs.patched_numpy(d):
                    judge = getattr(self, "op_" + op["op"])(op, a)
            except np.linalg.LinAlgError:
                judge = None                                         # a resample without full rank
                ctx.count("probe:singular")
            except Exception as e:
                ctx.fail("kernel-raised", "%s raised %s: %s" % (op["op"], type(e).__name__, str(e)[:200]))
            if judge:
                judge()
            ctx.count("probe:switches", self.team.switches - sw)
            ctx.count("probe:team-loops", self.team.loops - loops)
            if t["kind"] == "stall" and self.team.loops > loops:
                ctx.count("fault:stalled-thread")
            ctx.event(op["op"], t["threads"], t["kind"], self.team.trace[:200])
            ctx.state(op["op"], op["n"], op["p"], t["threads"], t["chunks"], t["kind"])

    def same(self, got, want, op, what, tol=1e-9):
        t = op["team"]
        self.ctx.close(np.asarray(got, float), np.asarray(want, float), "schedule-dependent-result", rtol=tol, atol=tol, what="%s with %d threads, %s, %s" % (what, t["threads"], t["chunks"], t["kind"]))

    def X(self, op, a, cols="p", n=None):
        X = a.normal(size=(n or op["n"], op[cols])) * 2 + a.normal(size=op[cols])
        if op["k"] & 4:
            X = np.round(X)
        return np.asfortranarray(X) if op["k"] & 2 else X

    def op_rowsum(self, op, a):
        X = self.X(op, a)
        r = self.du._row_sum(X)
        return lambda: self.same(r, X.sum(1), op, "row sums")

    def op_colsum(self, op, a):
        X = self.X(op, a)
        r, m = self.du._col_sum(X), self.du._col_mean(X)
        return lambda: (self.same(r, X.sum(0), op, "column sums"), self.same(m, X.mean(0), op, "column means"))

    def op_colstd(self, op, a):
        X = self.X(op, a)
        r = self.du._col_std(X)
        return lambda: self.same(r, X.std(0), op, "column standard deviations")

    def op_csd(self, op, a):
        X = a.normal(size=(op["n"], op["p"])) + 3
        keep = X.copy()
        c, s, b = self.du.center(X), self.du.standardize(X), self.du.csd(X)

        def judge():
            self.same(c, keep - keep.mean(0), op, "centred matrix")
            self.same(s, keep / keep.std(0), op, "scaled matrix")
            self.same(b, (keep - keep.mean(0)) / keep.std(0), op, "standardised matrix", 1e-8)
            self.same(X, keep, op, "the argument itself", 0)
        return judge

    def op_corr(self, op, a):
        X = a.normal(size=(max(op["n"], 3), op["p"])) + 3
        c, r = self.du.cov_nb(X), self.du.corr_nb(X)

        def judge():
            S = np.cov(X.T, bias=True).reshape(op["p"], op["p"])
            s = np.sqrt(np.diag(S))
            self.same(c, S, op, "covariance")
            self.same(r, S / np.outer(s, s), op, "correlation", 1e-8)
        return judge

    def op_dist(self, op, a):
        X = self.X(op, a)
        r = self.it.euclidean_distance(X)
        return lambda: self.same(r, np.sqrt(sqdist(X)), op, "distances")

    def xy(self, op, a, n0=4):
        n = max(op["n"], n0)
        X, Y = a.normal(size=(n, op["p"])), a.normal(size=(n, op["q"]))
        Y[:, 0] += X[:, 0] * a.normal()
        if op["k"] & 4 and op["p"] == 1 and op["q"] == 1:
            return X[:, 0], Y[:, 0], X, Y
        return X, Y, X, Y

    def op_dcorr(self, op, a):
        x, z, X, Y = self.xy(op, a)
        r, v = self.it.dcorr(x, z), self.it.dcorr(x, z, unbiased=False)
        return lambda: (self.same(r, dcorr(X, Y, True), op, "distance correlation", 1e-8), self.same(v, dcorr(X, Y, False), op, "biased distance correlation", 1e-8))

    def perms(self, n):
        return [v for k, v in self.d.draws if k == "perm" and v.shape == (n,)]

    def op_dcorr_perm(self, op, a):
        x, z, X, Y = self.xy(op, a)
        u = bool(op["k"] & 1)
        r, dist, p = self.it.dcorr_permutation_test(x, z, n_perms=op["b"], unbiased=u)

        def judge():
            ps = self.perms(len(X))
            self.same(r, dcorr(X, Y, u), op, "distance correlation", 1e-8)
            self.same(np.shape(dist), (op["b"],), op, "number of permuted statistics")
            if len(ps) == op["b"]:
                want = np.array([dcorr(X, Y[i], u) for i in ps])
                self.same(np.sort(dist), np.sort(want), op, "permuted statistics (sorted)", 1e-8)
            self.same(p, np.mean(np.abs(dist) > np.abs(r)), op, "p-value")
        return judge

    def op_dcorr_pvalue(self, op, a):
        x, z, X, Y = self.xy(op, a)
        u = bool(op["k"] & 1)
        r, _, p = self.it.dcorr_permutation_test(x, z, n_perms=op["b"], unbiased=u, return_samples=False)

        def judge():
            ps = self.perms(len(X))
            self.same(r, dcorr(X, Y, u), op, "distance correlation", 1e-8)
            if len(ps) == op["b"]:
                w = np.array([abs(dcorr(X, Y[i], u)) for i in ps])
                lo, hi = np.sum(w > abs(r) + 1e-9), np.sum(w > abs(r) - 1e-9)
                n = p * op["b"]
                self.ctx.check(lo - 1e-9 <= n <= hi + 1e-9, "schedule-dependent-result", lambda: "p-value counts %g of %d permutations as more extreme, %d are (%s)" % (n, op["b"], lo, op["team"]))
        return judge

    def op_kernel(self, op, a):
        X = self.X(op, a)
        bw = float(np.exp(a.normal() * 0.5))
        K = self.it._gauss_kernel(X, bw)
        return lambda: self.same(K, gauss(X, bw), op, "Gaussian kernel")

    def op_bandwidth(self, op, a):
        X = self.X(op, a)
        b = self.it._median_bandwith(X)
        return lambda: self.same(b, np.sqrt(np.median(sqdist(X)[np.tril_indices(len(X), -1)]) / 2), op, "median bandwidth")

    def op_dhsic(self, op, a):
        x, z, X, Y = self.xy(op, a)
        bw = "median" if op["k"] & 1 else [0.7, 1.9]
        s, bx, by = self.it.dhsic(x, z, bw=bw)

        def judge():
            for b, M, g in ((bx, X, 0.7), (by, Y, 1.9)):
                self.same(b, np.sqrt(np.median(sqdist(M)[np.tril_indices(len(M), -1)]) / 2) if op["k"] & 1 else g, op, "bandwidth")
            self.same(s, hsic(X, Y, bx, by), op, "dHSIC")
        return judge

    def op_dhsic_perm(self, op, a):
        x, z, X, Y = self.xy(op, a)
        s, bx, by, dist, p = self.it.dhsic_test(x, z, n_perms=op["b"])

        def judge():
            ps = self.perms(len(X))
            self.same(s, hsic(X, Y, bx, by), op, "dHSIC")
            if len(ps) == op["b"]:
                self.same(np.sort(dist), np.sort([hsic(X, Y[i], bx, by) for i in ps]), op, "permuted dHSIC (sorted)")
            self.same(p, np.mean(np.abs(dist) > np.abs(s)), op, "p-value")
        return judge

    def boot(self, op, a, cls):
        n, p, b = max(op["n"], 8), min(op["p"], 3), op["b"]
        X = np.concatenate([np.ones((n, 1)), a.normal(size=(n, p))], axis=1)
        y = X @ a.normal(size=p + 1) + a.normal(size=n)
        out = cls.bootstrap_chol(X, y.reshape(-1, 1), np.zeros((b, p + 2)), b)

        def judge():
            ix = [v for k, v in self.d.draws if k == "choice" and v.shape == (n,)]
            self.same(np.shape(out), (b, p + 2), op, "shape of the bootstrap table")
            if len(ix) != b:
                return
            want = []
            for i in ix:
                if np.linalg.matrix_rank(X[i]) < p + 1 or np.linalg.cond(X[i]) > 1e4:
                    self.ctx.count("probe:singular")
                    return
                c = np.linalg.lstsq(X[i], y[i], rcond=None)[0]
                want.append(np.r_[c, np.sum((y[i] - X[i] @ c) ** 2)])
            want = np.array(want)
            o = lambda M: M[np.lexsort(np.round(M, 6).T)]
            self.same(o(out), o(want), op, "bootstrap estimates and residual sums of squares (sorted)", 1e-5)
        return judge

    def op_boot(self, op, a):
        return self.boot(op, a, self.o[0])

    def op_boot1(self, op, a):
        return self.boot(op, a, self.o[1])


WORLD = W
