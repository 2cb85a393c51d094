"""C17: random matrices, exact-moment samples and variates, for whatever numbers the generator deals."""
import warnings
import numpy as np
import scipy.stats as st
from ..core import World
from .. import faults, variates, jitseam

KS = 3.7                                     # sqrt(n) D above this has probability 3e-12 for draws of the stated law


def spd(g, d, scale=1.0):
    a = g.normal(size=(d, d + 2))
    return a @ a.T / (d + 2) * scale + 0.05 * scale * np.eye(d)


class W(World):
    prop = "C17"
    technique = ("seeded simulation of the random stream: the simulator deals every draw (ordinary values, extreme quantiles at either end, zeros, repeats), fails the k-th draw or interrupts any "
                 "executed line; validity of everything returned, exact-moment and location-scale relations, and the law of a long ordinary stream against its closed form")
    rule = ("a run makes 1-5 calls of the generators of one stream under dealt draws and injected faults; non-trivial: at least one returned matrix or sample was judged")
    states_measure = "distinct (function, dimension, parameter bracket, draw modes, fault kind, outcome) tuples"
    real = ("pystatsm.utilities.random", "pystatsm.utilities.tf_utils", "random correlation and exact covariance functions of pystatsm.utilities.cov_utils", "pystatsm.pyfa2.simulation",
            "pystatsm.pyscca.cca_sim.SimCCA", "pystatsm.pylmm.sim_lmm2 draw_ranefs, draw_residuals", "random_thresholds", "rvs of pyglm and pyglm2 families", "pystatsm.pyglm2.sim_mvols")
    stub = ("random numbers (dealt by the simulator)", "numba kernels run as the Python source they are compiled from")
    assumptions = ("dealt extremes stay within the 1e-12 quantiles of what is drawn (1e-6 for beta, 1e-4 for the lower end of gamma draws), and at most one entry of a vector of normals is dealt as zero, never the last", "positive definiteness is judged up to rounding, 1e-9, once an extreme was dealt",
                   "the law of a stream is judged by a Kolmogorov distance whose excess has probability 3e-12")
    quick_runs, thorough_runs = 5000, 200000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        import pystatsm.utilities.random as R
        import pystatsm.utilities.data_utils as du
        import pystatsm.utilities.cov_utils as cu
        import pystatsm.utilities.tf_utils as tf
        import pystatsm.pyfa2.simulation as fs
        import pystatsm.pyscca.cca_sim as cca
        import pystatsm.pylmm.sim_lmm2 as s2
        import pystatsm.pyglm2.sim_mvols as mv
        import pystatsm.pylvcorr.polychoric2 as p2
        import pystatsm.pylvcorr.sim_lvcorr as p1
        import pystatsm.pyglm2.families as f2
        import pystatsm.pyglm.families as f1
        jitseam.interpret(R, du)
        s2.exact_rmvnorm = cca.exact_rmvnorm = R.exact_rmvnorm
        self.R, self.cu, self.tf, self.fs, self.cca, self.s2, self.mv, self.th, self.fam = R, cu, tf, fs, cca, s2, mv, (p1, p2), (f1, f2)
        self.ops = sorted(k[3:] for k in dir(self) if k.startswith("op_"))

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            op = dict(op=r.choice(OPS), d=r.choice([1, 2, 2, 3, 3, 4, 5, 7, 9]), n=r.choice([1, 2, 3, 8, 20]), eta=r.choice([0.5, 1, 1, 2.0, 7.5]), s=r.randrange(1 << 20), k=r.randrange(8),
                      law=r.random() < 0.25)
            if r.random() < 0.15:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 8)))
            elif r.random() < 0.1:
                op["drawfault"] = dict(kind=r.choice(["interrupt", "memory"]), k=r.randrange(1, 8))
            ops.append(op)
        modes = [r.choice(variates.MODES) if r.random() < 0.6 else "iid" for _ in range(r.choice([1, 2, 3, 5]))]
        return dict(config=dict(seed=r.randrange(1 << 30), modes=modes), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        if c["modes"] != ["iid"]:
            yield dict(sc, config=dict(c, modes=["iid"]))
            for m in c["modes"]:
                if c["modes"] != [m]:
                    yield dict(sc, config=dict(c, modes=[m]))
        for i, op in enumerate(sc["ops"]):
            for k, v in (("d", 2), ("d", 3), ("n", 1), ("n", 3), ("eta", 1), ("law", False)):
                if op[k] != v:
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])

    def execute(self, sc, ctx):
        c = sc["config"]
        for i, op in enumerate(sc["ops"]):
            df, f = op.get("drawfault"), op.get("fault")
            g = variates.VGen(c["seed"] + 7 * i, ["iid"] if op["law"] else c["modes"], df and df["k"], df and faults.exc_type(df["kind"]))
            self.g, self.ctx, self.odd = g, ctx, lambda: g.odd > 0
            a = np.random.default_rng(op["s"])
            ctx.count("op:" + op["op"])
            ctx.steps += 1
            lf, how = None, "returned"
            make = getattr(self, "op_" + op["op"])
            judge = None
            try:
                with variates.patched(g):
                    call, judge = make(op, a)
                    if f:
                        with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                            out = call()
                    else:
                        out = call()
            except BaseException as e:
                if not faults.injected(e):
                    ctx.fail("generator-raised", "%s raised %s: %s" % (op["op"], type(e).__name__, str(e)[:200]))
                how = "interrupted"
                ctx.count("fault:" + (f or df)["kind"])
            else:
                ctx.count("probe:odd-draws", g.odd)
                if not (lf and lf.fired):
                    judge(out)
            ctx.event(op["op"], how, g.n)
            ctx.state(op["op"], op["d"], op["eta"], "".join(sorted(set(m[0] for m in c["modes"]))), (f or df or {}).get("kind"), how, op["law"])

    # ------------------------------------------------------------------ judges
    def ok(self, c, kind, what):
        self.ctx.check(bool(c), kind, what)

    def near(self, x, y, kind, tol=1e-9, what=""):
        self.ctx.close(x, y, kind, rtol=tol, atol=tol, what=what)

    def corr(self, R, name, d, kind="invalid-matrix"):
        R = np.asarray(R)
        self.ok(R.shape == (d, d), "shape", "%s gives shape %s for dimension %d" % (name, R.shape, d))
        self.ok(np.all(np.isfinite(R)), "invalid-matrix", "%s has entries that are not finite" % name)
        self.near(R, R.T, "invalid-matrix", 1e-12, name + " against its transpose")
        self.near(np.diag(R), np.ones(d), "invalid-matrix", 1e-9, "diagonal of " + name)
        w = np.linalg.eigvalsh(R)[0]
        self.ok(w > (-1e-9 if self.odd() else 0), kind, "%s of dimension %d has smallest eigenvalue %.3g" % (name, d, w))

    def cov(self, S, name, d):
        S = np.asarray(S)
        self.ok(S.shape == (d, d) and np.all(np.isfinite(S)), "invalid-matrix", "%s has shape %s" % (name, S.shape))
        t = np.abs(S).max()
        self.near(S / t, S.T / t, "invalid-matrix", 1e-9, name + " against its transpose")
        w = np.linalg.eigvalsh((S + S.T) / 2)[0]
        self.ok(w > -1e-9 * t if self.odd() else w > 0, "invalid-matrix", "%s has smallest eigenvalue %.3g" % (name, w))

    def law(self, x, cdf, name, kind="wrong-law"):
        """Kolmogorov distance of the sample to a distribution function (right-continuous, possibly with jumps)"""
        x = np.sort(np.asarray(x, float).ravel())
        n = len(x)
        F, F0 = cdf(x), cdf(np.nextafter(x, -np.inf))
        hi = np.searchsorted(x, x, side="right") / n
        lo = np.searchsorted(x, x, side="left") / n
        D = max(np.max(np.abs(hi - F)), np.max(np.abs(lo - F0)))
        self.ok(np.all(np.isfinite(x)) and np.sqrt(n) * D < KS, kind, "%s: Kolmogorov distance %.3g over %d draws" % (name, D, n))

    # ------------------------------------------------------------------ correlation matrices
    def op_vine(self, op, a):
        d, e = op["d"], op["eta"]
        kw = [dict(eta=e), dict(eta=e, seed=op["s"]), dict(eta=e, beta=e + d), dict(eta=e, min_eig=True)][op["k"] % 4]
        if op["law"]:
            d, m = max(2, min(d, 4)), 400
            i, j = sorted(a.choice(d, 2, replace=False))
            return (lambda: [self.R.vine_corr(d, e)[i, j] for _ in range(m)]), lambda x: self.law((np.array(x) + 1) / 2, st.beta(e - 1 + d / 2, e - 1 + d / 2).cdf, "vine_corr d=%d eta=%g [%d,%d]" % (d, e, i, j),
                                                                                                   "vine-later-rows" if i > 0 else "wrong-law")
        return (lambda: self.R.vine_corr(d, **kw)), lambda R: self.corr(R, "vine_corr", d, "vine-later-rows" if d > 2 and op["k"] % 4 < 3 else "invalid-matrix")

    def op_onion(self, op, a):
        d, e = max(2, op["d"]), op["eta"]
        if op["law"]:
            d, m = min(d, 4), 400
            i, j = sorted(a.choice(d, 2, replace=False))
            return (lambda: [self.R.onion_corr(d, e)[i, j] for _ in range(m)]), lambda x: self.law((np.array(x) + 1) / 2, st.beta(e - 1 + d / 2, e - 1 + d / 2).cdf, "onion_corr d=%d eta=%g [%d,%d]" % (d, e, i, j))
        return (lambda: self.R.onion_corr(d, e)), lambda R: self.corr(R, "onion_corr", d)

    def op_lkj(self, op, a):
        d, e, n = op["d"], op["eta"], op["n"]
        if op["law"] and d > 1:
            i, j = sorted(a.choice(d, 2, replace=False))
            return (lambda: self.R.r_lkj(e, 2000, d, self.g)[:, 0, i, j]), lambda x: self.law((x + 1) / 2, st.beta(e - 1 + d / 2, e - 1 + d / 2).cdf, "r_lkj d=%d eta=%g [%d,%d]" % (d, e, i, j))
        eta = e if op["k"] % 2 else np.array([e, 1.0, 3.0])
        m = np.size(eta)

        def judge(R):
            self.ok(R.shape == (n, m, d, d), "shape", "r_lkj(n=%d, %d etas, dim=%d) has shape %s" % (n, m, d, R.shape))
            for x in R.reshape(-1, d, d)[:6]:
                self.corr(x, "r_lkj", d)

        def judge_chol(L):
            self.ok(L.shape == (n, m, d, d), "shape", "r_lkj_cholesky has shape %s" % (L.shape,))
            for x in L.reshape(-1, d, d)[:6]:
                self.near(x, np.tril(x), "invalid-matrix", 0, "r_lkj_cholesky against its lower triangle")
                self.ok(np.all(np.diag(x) >= 0), "invalid-matrix", "r_lkj_cholesky has a negative diagonal")
                self.corr(x @ x.T, "r_lkj_cholesky", d)
        if op["k"] % 4 < 2:
            return (lambda: self.R.r_lkj(eta, n, d, self.g)), judge
        return (lambda: self.R.r_lkj_cholesky(eta, n, d, self.g)), judge_chol

    def op_covutils(self, op, a):
        d, e = op["d"], op["eta"]
        if op["k"] % 2:
            return (lambda: self.cu.get_lkj_corr(d, e, dict(rng=self.g))), lambda R: self.corr(R, "get_lkj_corr", d)
        self.g.modes = ["iid"]                                       # scipy draws here
        u = self.cu.get_eigvals(n_var=max(d, 2), p_eff=a.uniform(0.2, 1.0))

        def judge(R):
            self.corr(R, "get_eig_corr", len(u))
            self.near(np.linalg.eigvalsh(R), np.sort(u / u.sum() * len(u)), "invalid-matrix", 1e-7, "eigenvalues of get_eig_corr")
        return (lambda: self.cu.get_eig_corr(u, rng=self.g)), judge

    def op_ortho(self, op, a):
        d = op["d"]
        p = int(a.integers(1, d + 1))
        if op["law"] and d > 1:
            if op["k"] % 2:
                return (lambda: [self.R._special_ortho(d, self.g)[0, 0] for _ in range(500)]), lambda x: self.law(np.square(x), st.beta(0.5, (d - 1) / 2).cdf, "_special_ortho [0,0]^2")
            return (lambda: [self.R._ortho_norm(d, p, self.g)[0, 0] for _ in range(500)]), lambda x: self.law(np.square(x), st.beta(0.5, (d - 1) / 2).cdf, "_ortho_norm [0,0]^2")
        if op["k"] % 2:
            def judge(Q):
                self.ok(Q.shape == (d, d), "shape", "_special_ortho(%d) has shape %s" % (d, Q.shape))
                self.near(Q @ Q.T, np.eye(d), "not-orthogonal", 1e-8, "_special_ortho Q Q'")
                self.near(np.linalg.det(Q), 1.0, "not-orthogonal", 1e-8, "determinant of _special_ortho(%d)" % d)
            return (lambda: self.R._special_ortho(d, self.g)), judge

        def judge2(Q):
            self.ok(Q.shape == (d, p), "shape", "_ortho_norm(%d, %d) has shape %s" % (d, p, Q.shape))
            self.near(Q.T @ Q, np.eye(p), "not-orthogonal", 1e-8, "_ortho_norm Q'Q")
        return (lambda: self.R._ortho_norm(d, p, self.g)), judge2

    def op_sphere(self, op, a):
        d, n = op["d"], op["n"]
        return ((lambda: self.tf.spherical_uniform((n, 2), d, self.g)),
                lambda x: self.near((np.asarray(x)**2).sum(-1), np.ones((n, 2)), "not-orthogonal", 1e-8, "squared norm of spherical_uniform"))

    # ------------------------------------------------------------------ covariance draws
    def op_wishart(self, op, a):
        d = op["d"]
        V = spd(a, d)
        df = d + a.choice([0, 1, 2.5, 20])
        name = ("wishart", "invwishart", "r_invwishart")[op["k"] % 3]
        f = getattr(self.R, name)
        if name != "wishart":                                        # inverses of nearly singular draws are rounding noise
            self.g.modes = [m if m in ("zero", "repeat") else "iid" for m in self.g.modes]
        if not op["law"]:
            return (lambda: f(df, V)), lambda W: self.cov(W, name, d)
        x = a.normal(size=d)
        inv = np.linalg.inv

        def stat(W):
            if name == "wishart":
                return x @ W @ x / (x @ V @ x)
            return (x @ (inv(V) if name == "invwishart" else V) @ x) / (x @ W @ x)
        if name == "r_invwishart":
            ref, stat2 = st.chi2(df - d + 1).cdf, lambda W: (x @ inv(V) @ x) and (x @ inv(W) @ x) / (x @ inv(V) @ x)
            return (lambda: [stat2(f(df, V)) for _ in range(400)]), lambda y: self.law(y, st.chi2(df).cdf, "r_invwishart")
        if name == "invwishart":
            return (lambda: [(x @ inv(f(df, V)) @ x) / (x @ V @ x) for _ in range(400)]), lambda y: self.law(y, st.chi2(df).cdf, "invwishart")
        return (lambda: [stat(f(df, V)) for _ in range(400)]), lambda y: self.law(y, st.chi2(df).cdf, "wishart")

    def op_invgamma(self, op, a):
        df, s = a.uniform(0.5, 9), a.uniform(0.1, 5)
        if op["law"]:
            return (lambda: [self.R.r_invgamma(df, s) for _ in range(600)]), lambda x: self.law(x, st.invgamma(df, scale=s).cdf, "r_invgamma")
        return (lambda: self.R.r_invgamma(df, s)), lambda x: self.ok(x > 0 and np.isfinite(x), "invalid-draw", "r_invgamma gave %s" % x)

    def op_mvt(self, op, a):
        d, n, nu = op["d"], max(2, op["n"]), float(a.choice([1, 3, 8]))
        m, S = a.normal(size=d) * 5, spd(a, d)
        if op["law"]:
            iS = np.linalg.inv(S)
            if op["k"] % 2:
                return (lambda: self.R.multivariate_t(m, S, nu, 800, self.g)), lambda x: self.law(x[:, 0], st.t(nu, m[0], np.sqrt(S[0, 0])).cdf, "first coordinate of multivariate_t")
            return (lambda: self.R.multivariate_t(m, S, nu, 800, self.g)), lambda x: self.law(np.einsum("ij,jk,ik->i", x - m, iS, x - m) / d, st.f(d, nu).cdf, "multivariate_t quadratic form")
        return (lambda: self.R.multivariate_t(m, S, nu, n, self.g)), lambda x: self.ok(x.shape == (n, d) and np.all(np.isfinite(x)), "invalid-draw", "multivariate_t has shape %s" % (x.shape,))

    def op_loc_scale(self, op, a):
        l, s, nu = a.normal() * 5, a.uniform(0.1, 4), float(a.choice([1, 3, 8]))
        size = [None, 3, (2, 3), 500][op["k"] % 4]
        if op["k"] < 4:
            call, ref = (lambda: self.R.students_t(l, s, nu, size, self.g)), st.t(nu, l, s)
        else:
            call, ref = (lambda: self.R.cauchy(l, s, size, self.g)), st.cauchy(l, s)

        def judge(x):
            self.ok(np.shape(x) == (() if size is None else tuple(np.atleast_1d(size))), "shape", "size %s gave shape %s" % (size, np.shape(x)))
            if op["law"] and size == 500:
                self.law(x, ref.cdf, "students_t" if op["k"] < 4 else "cauchy")
        return call, judge

    # ------------------------------------------------------------------ exact moments
    def op_exact(self, op, a):
        d = op["d"]
        n = d + 2 + op["n"] * 2
        S = spd(a, d, a.choice([1.0, 25.0]))
        mu = a.normal(size=d) if op["k"] % 2 else None
        kw = dict(seed=op["s"]) if op["k"] % 3 == 0 else {}
        if op["k"] < 5:
            def judge(X):
                self.ok(X.shape == (n, d), "shape", "exact_rmvnorm has shape %s" % (X.shape,))
                C = self.g.last[("normal", (n, d))] if ("normal", (n, d)) in self.g.last else X
                R = np.corrcoef(C.T).reshape(d, d)
                if not np.all(np.isfinite(R)) or np.linalg.cond(R) > 1e5:
                    return
                self.near(X.mean(0), np.zeros(d) if mu is None else mu, "moments", 1e-7, "mean of exact_rmvnorm")
                self.near(np.cov(X.T, bias=True).reshape(d, d), S, "moments", 1e-7, "covariance of exact_rmvnorm")
            return (lambda: self.R.exact_rmvnorm(S, n, mu, **kw) if mu is not None or kw else self.R.exact_rmvnorm(S, n)), judge
        X = a.normal(size=(n, d))
        X = X - X.mean(0)

        def judge2(Z):
            self.near(Z.mean(0), np.zeros(d) if mu is None else mu, "moments", 1e-8, "mean of _exact_cov")
            self.near(np.cov(Z.T, bias=True).reshape(d, d), S, "moments", 1e-8, "covariance of _exact_cov")
        return (lambda: self.cu._exact_cov(X, mean=mu, cov=S)), judge2

    def op_ranefs(self, op, a):
        d = min(op["d"], 3)
        spec = self.s2.SimSpec(n_obs=60, response="y", fe_formula="~1", beta=np.ones(1), resid_var=float(a.uniform(0.2, 3)),
                               ranef=[self.s2.RanefSpec(re_formula="1", group_var="id%d" % i, G=spd(a, d), n_groups=10 + i, n_per=6) for i in range(1 + op["k"] % 2)])
        if op["k"] % 4 < 2:
            def judge(u):
                i = 0
                for r in spec.ranef:
                    U = u[i: i + r.n_groups * d].reshape(r.n_groups, d)
                    i += r.n_groups * d
                    if np.linalg.cond(np.cov(U.T).reshape(d, d)) < 1e6:
                        self.near(U.mean(0), np.zeros(d), "moments", 1e-8, "mean of exact random effects")
                        self.near(np.cov(U.T, bias=True).reshape(d, d), r.G, "moments", 1e-8, "covariance of exact random effects")
                self.ok(len(u) == i, "shape", "draw_ranefs gave %d values for %d" % (len(u), i))
            ok = self.g.modes
            self.g.modes = ["iid"] if "repeat" not in ok else ok
            return (lambda: self.s2.draw_ranefs(spec, self.g, exact=True)), judge

        def judge2(e):
            self.ok(len(e) == spec.n_obs, "shape", "draw_residuals gave %d values" % len(e))
            self.near(e.mean(), 0.0, "moments", 1e-9, "mean of exact residuals")
            self.near(e.var(), spec.resid_var, "moments", 1e-9, "variance of exact residuals")
        return (lambda: self.s2.draw_residuals(spec, self.g, exact=True)), judge2

    # ------------------------------------------------------------------ truncated draws
    def op_trunc(self, op, a):
        n = op["n"]
        mu, sd = a.normal(size=n) * 3, np.exp(a.normal(size=n) * 0.7)
        kind = a.integers(0, 4, size=n)
        lo = np.round(mu + sd * a.uniform(-4, 3, size=n), int(a.integers(0, 12)))
        hi = lo + sd * np.exp(a.uniform(-3, 2, size=n))
        lb = np.where(kind % 2 == 0, lo, -1e20)
        ub = np.where(kind < 2, hi, 1e20)
        if op["law"]:
            i = 0
            ref = st.truncnorm((lb[i] - mu[i]) / sd[i] if lb[i] > -1e16 else -np.inf, (ub[i] - mu[i]) / sd[i] if ub[i] < 1e16 else np.inf, mu[i], sd[i])
            rep = lambda v: np.repeat(v[0], 500)
            return (lambda: self.R.trnorm(rep(mu), rep(sd), rep(lb), rep(ub))), lambda x: self.law(x, ref.cdf, "trnorm mu=%.3g sd=%.3g on [%.3g, %.3g]" % (mu[0], sd[0], lb[0], ub[0]))

        def judge(x):
            x = np.atleast_1d(x)
            slack = 1e-12 * (np.abs(mu) + np.abs(np.where(np.abs(lb) < 1e16, lb, 0)) + np.abs(np.where(np.abs(ub) < 1e16, ub, 0)) + sd * 10)
            self.ok(x.shape == (n,) and np.all(np.isfinite(x)), "invalid-draw", "trnorm has shape %s" % (x.shape,))
            bad = np.maximum(lb - x, x - ub) - slack[: len(x)]
            i = int(np.argmax(bad))
            self.ok(bad[i] <= 0, "out-of-bounds", "draw %d is outside [%.17g, %.17g] by %.3g" % (i, lb[i], ub[i], bad[i]))
        if op["k"] % 4 == 0:
            return (lambda: [self.R.scalar_truncnorm(m, s, l, u) for m, s, l, u in zip(mu, sd, lb, ub)]), judge
        return (lambda: self.R.trnorm(mu, sd, lb, ub)), judge

    # ------------------------------------------------------------------ simulators built on them
    def op_factor(self, op, a):
        m = max(1, min(op["d"], 4))
        p = 3 * m + op["n"] % 3
        F = self.fs

        def call():
            L = F.generate_loadings(p, m, 0.4, 0.9, random=True, rng=self.g)
            Phi = F.generate_factor_corr(m, random=True, eta=op["eta"], rng=self.g) if op["k"] % 2 else F.generate_factor_corr(m, a.uniform(0, 0.9))
            psi = F.generate_uniquenesses(p, 0.3, 0.7, random=True, rng=self.g)
            M = F.FactorModel(L, Phi, psi if op["k"] % 3 else np.diag(psi))
            return L, Phi, psi, M, M.sample(6, self.g)

        def judge(out):
            L, Phi, psi, M, x = out
            self.ok(np.all((L == 0) | ((L >= 0.4) & (L <= 0.9))) and np.all((L != 0).sum(1) == 1), "invalid-draw", "loadings outside [0.4, 0.9] or not simple")
            self.corr(Phi, "generate_factor_corr", m)
            self.ok(np.all((psi >= 0.3) & (psi <= 0.7)), "invalid-draw", "uniquenesses outside [0.3, 0.7]")
            self.near(M.Sigma, L @ Phi @ L.T + np.diag(psi), "invalid-matrix", 1e-12, "implied covariance")
            self.ok(x.shape == (6, p), "shape", "FactorModel.sample has shape %s" % (x.shape,))
        return call, judge

    def op_cca(self, op, a):
        self.g.modes = ["iid"]                                       # a singular block has no canonical correlations
        p = max(1, min(op["d"], 4))
        q = p + op["n"] % 3
        rho = np.sort(a.uniform(0.05, 0.9, size=p))[::-1]
        n = p + q + 2 + op["n"]

        def call():
            s = self.cca.SimCCA(p, q, rhos=rho, rng=self.g)
            return s, s.simulate_data(n, exact=bool(op["k"] % 2))

        def judge(out):
            s, (X, Y) = out
            S = s.S
            if np.linalg.cond(S[:p, :p]) > 1e5 or np.linalg.cond(S[p:, p:]) > 1e5:
                return
            self.corr(S, "SimCCA.S", p + q)
            w = lambda M: np.linalg.inv(np.linalg.cholesky(M))
            c = np.linalg.svd(w(S[:p, :p]) @ S[:p, p:] @ w(S[p:, p:]).T, compute_uv=False)
            self.near(c, rho, "invalid-matrix", 1e-6, "canonical correlations of SimCCA")
            Z = np.c_[X, Y]
            self.near(Z.mean(0), np.zeros(p + q), "moments", 1e-7, "mean of SimCCA data")
            self.near(Z.var(0), np.ones(p + q), "moments", 1e-7, "variance of SimCCA data")
            if op["k"] % 2 and not self.odd():
                self.near(np.cov(Z.T, bias=True), S, "moments", 1e-7, "covariance of exact SimCCA data")
        return call, judge

    def op_mvols(self, op, a):
        p, q, n = max(1, op["d"] % 5), 1 + op["k"] % 3, 20
        kw = dict(n=n, p=p, q=q, noise=("normal", "t")[op["k"] % 2], beta_structure=("low_rank_plus_sparse", "sparse", "dense")[op["s"] % 3], beta_rank=1, target_r2=float(a.uniform(0.1, 0.9)), fit_intercept=bool(op["s"] % 2))

        def judge(o):
            self.cov(o["Sigma"], "Sigma of generate_mmr_data", q)
            M = o["signal"] - o["signal"].mean(0)
            v = np.trace(M.T @ M) / n
            if v > 1e-12:
                self.near(v / (v + np.trace(o["Sigma"])), kw["target_r2"], "moments", 1e-8, "explained share of generate_mmr_data")
            self.near(o["Y"], o["X_design"] @ o["B"] + o["E"], "moments", 1e-9, "response of generate_mmr_data")
            self.near(o["Omega"] @ o["Sigma"], np.eye(q), "invalid-matrix", 1e-6, "precision of generate_mmr_data")
        return (lambda: self.mv.generate_mmr_data(random_state=self.g, **kw)), judge

    def op_thresholds(self, op, a):
        nv = max(1, op["d"] % 5)
        ncat = np.asarray(a.integers(3, 8, size=nv))
        f = self.th[op["k"] % 2].random_thresholds

        def judge(out):
            q, t = out
            self.ok(len(q) == len(t) == nv, "shape", "random_thresholds gave %d" % len(t))
            for i in range(nv):
                x, y = np.asarray(q[i]), np.asarray(t[i])
                self.ok(x[0] == 0 and x[-1] == 1 and np.all(np.diff(x) >= 0), "invalid-draw", "quantiles %s" % (x,))
                self.ok(y[0] == -np.inf and y[-1] == np.inf and np.all(np.diff(y[1:-1]) >= 0), "invalid-draw", "thresholds %s" % (y,))
                self.ok(len(y) == ncat[i] - 1, "shape", "%d thresholds for %d" % (len(y), ncat[i]))
        return (lambda: f(nv, ncat=ncat, rng=self.g)), judge

    def op_family(self, op, a):
        mod = self.fam[op["k"] % 2]
        name = ("Gaussian", "InverseGaussian", "Gamma", "NegativeBinomial", "Poisson", "Binomial")[op["s"] % 6]
        n = 600 if op["law"] else op["n"]
        mu = np.exp(a.normal() * 0.5) * np.ones(n)
        phi = float(a.choice([0.3, 1.0, 2.0]))
        N = int(a.choice([1, 5]))
        F = getattr(mod, name)
        fam = F(weights=np.full(n, N)) if name == "Binomial" else F()
        kw = dict(dispersion=phi) if name == "NegativeBinomial" else {} if name in ("Poisson", "Binomial") else dict(phi=phi)
        if name == "Binomial":
            mu = mu / (1 + mu)
        m = mu[0]
        ref = dict(Gaussian=lambda: st.norm(m, np.sqrt(phi)), InverseGaussian=lambda: st.invgauss(m * phi, scale=1 / phi), Gamma=lambda: st.gamma(1 / phi, scale=m * phi),
                   NegativeBinomial=lambda: st.nbinom(1 / phi, 1 / (1 + phi * m)), Poisson=lambda: st.poisson(m), Binomial=lambda: st.binom(N, m))[name]()

        def judge(y):
            y = np.asarray(y, float)
            self.ok(y.shape == (n,) and np.all(np.isfinite(y)), "invalid-draw", "%s.rvs has shape %s" % (name, y.shape))
            if name in ("InverseGaussian", "Gamma"):
                self.ok(np.all(y > 0), "invalid-draw", "%s.rvs gave %.3g" % (name, y.min()))
            if name in ("NegativeBinomial", "Poisson"):
                self.ok(np.all((y >= 0) & (y == np.round(y))), "invalid-draw", "%s.rvs gave a value that is no count" % name)
            if name == "Binomial":
                y = y * N
                self.near(y, np.round(y), "invalid-draw", 1e-9, "Binomial.rvs times its trials")
                self.ok(np.all((y > -1e-9) & (y < N + 1e-9)), "invalid-draw", "Binomial.rvs outside [0, 1]")
                y = np.round(y)
            if op["law"]:
                self.law(y, ref.cdf, "%s.%s.rvs mean %.3g scale %g" % (mod.__name__, name, m, phi))
        return (lambda: fam.rvs(mu, rng=self.g, **kw)), judge

    def known(self, sc, res):
        """vine_corr leaves the first variable out when it conditions (listed): from dimension 3 on, entries beyond its
        first row have another law and the matrix may be indefinite; its first row, diagonal, symmetry and shape are judged"""
        return "C17-vine" if res["violation"][0] == "vine-later-rows" else None

    def nontrivial(self, sc, res):
        return res["counts"].get("assertions", 0) > 0


OPS = sorted(k[3:] for k in vars(W) if k.startswith("op_"))
WORLD = W
