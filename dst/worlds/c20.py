"""C20: penalised paths.  Whatever the starting values, the order of the penalties and the calls cut short before, a fit is the optimum of its penalty."""
import os
import warnings
import numpy as np
from ..core import World
from .. import faults, jitcache

OPS = ("elnet", "elnet", "elnet", "cvgauss", "binom", "binom", "binom1", "binom1", "bpath", "cvbinom", "glm", "glm", "glm1", "glm1", "value", "value", "lars", "lars", "glmen", "start", "lasso")
KNOWN = "glmen2-dropped"


def lse(e):
    return np.logaddexp(0, e)


class W(World):
    prop = "C20"
    technique = ("seeded simulation of histories of penalised fits on shared data and objects: starting values carried from other penalties, from the optimum, from nowhere near it, penalties in any order, calls cut short at an "
                 "executed line and repeated; each returned fit is judged by the optimality conditions of its own convex problem, each evaluation by a direct computation")
    rule = ("a run makes 3-8 calls (elastic-net coordinate descent for gaussian and binomial responses, alone, along a path or inside a cross-validation; elastic-net GLM; least-angle regression; proximal gradient) with starts and faults "
            "dealt by the seed; non-trivial: at least one fit's optimality was judged")
    states_measure = "distinct (procedure, start, order of penalties, number of variables, variables at zero, fault kind, outcome) tuples"
    real = ("pystatsm.pyglmnet gaussian_eln, binomial_eln, binom_eln2, glmen, glmen2, lars, lasso", "compiled numba kernels")
    stub = ("tqdm progress bar (disabled)",)
    assumptions = ("solvers are asked for tight tolerances; a fit that used all its iterations is not judged", "gaussian coordinate descent centres the response and not the variables", "a problem whose optimum separates the classes is not judged",
                   "least-angle regression is judged at its knots, on variables without ties")
    quick_runs, thorough_runs = 3000, 120000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        os.environ["TQDM_DISABLE"] = "1"
        jitcache.enable(self.root[: -len("pystatsm/")])
        import pystatsm.pyglmnet.glmen as g1
        import pystatsm.pyglmnet.glmen2 as g2
        import pystatsm.pyglmnet.gaussian_eln as ge
        import pystatsm.pyglmnet.binomial_eln as be
        import pystatsm.pyglmnet.binom_eln2 as b2
        import pystatsm.pyglmnet.lars as la
        import pystatsm.pyglmnet.lasso as ls
        import pystatsm.pyglm.families as f
        self.g1, self.g2, self.ge, self.be, self.b2, self.la, self.ls = g1, g2, ge, be, b2, la, ls
        self.fam = dict(gaussian=f.Gaussian, binomial=f.Binomial)
        a = np.random.default_rng(0)
        X, y = a.normal(size=(24, 3)), (np.arange(24) % 2).astype(float)

        def glm(fam):
            m = g2.ElasticNetGLM(X, y, self.fam[fam](), alpha=0.9)
            m._glm_elnet_path(m.X, m.Xsq, m.y, m.wobs, m.get_start_param(3)[0])
        jobs = [lambda: glm("gaussian"), lambda: glm("binomial"), lambda: ge.cv_glmnet(3, X, y, lambdas=4), lambda: be.cv_binom_glmnet(3, X, y, lambdas=4),
                lambda: b2.binom_elnet_path(X, y, np.ones(24), 0.9, 3), lambda: b2.binom_elnet(X, y, 0.01), lambda: la.lars(X, X @ np.array([1., 2, 3]) + y)]
        jitcache.parallel_warm(jobs)
        for j in jobs:
            j()

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([3, 4, 5, 6, 8])):
            op = dict(op=r.choice(OPS), alpha=r.choice([0.99, 0.9, 0.5, 1.0, 0.2]), lam=round(10 ** r.uniform(-2.5, 0.1), 5), start=r.choice(["none", "none", "last", "far", "zero", "sign"]),
                      order=r.choice(["down", "down", "down", "up", "any"]), nl=r.choice([2, 4, 8]), k=r.randrange(16), s=r.randrange(1 << 20))
            if r.random() < 0.2:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 8)))
            ops.append(op)
        return dict(config=dict(seed=r.randrange(1 << 30), n=r.choice([25, 35, 50, 80]), p=r.choice([1, 2, 3, 4, 6, 9]), rho=r.choice([0, 0.5, 0.9, -0.1]), q=r.choice([0.3, 0.6, 1.0]), w=r.random() < 0.4), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("p", 2), ("p", 3), ("p", 4), ("n", 25), ("n", 35), ("rho", 0), ("w", False)):
            if c[k] != v and not (k in ("p", "n") and c[k] < v):
                yield dict(sc, config=dict(c, **{k: v}))
        for i, op in enumerate(sc["ops"]):
            for k, v in (("nl", 2), ("start", "none"), ("order", "down"), ("alpha", 0.9)):
                if op[k] != v:
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])

    def nontrivial(self, sc, res):
        return res["counts"].get("probe:judged", 0) > 0

    def known(self, sc, res):
        return KNOWN if res["violation"][0] == "elastic-net-glm-left-a-variable-out" else None

    # ------------------------------------------------------------------ a run
    def execute(self, sc, ctx):
        c = sc["config"]
        self.ctx, self.c = ctx, c
        a = np.random.default_rng(c["seed"])
        n, p = c["n"], c["p"]
        Z = a.normal(size=(n, p))
        if c["rho"] > 0:
            Z = np.sqrt(1 - c["rho"]) * Z + np.sqrt(c["rho"]) * a.normal(size=(n, 1))
        elif c["rho"] < 0:
            Z = Z - 0.5 * np.roll(Z, 1, axis=1) * (p > 1)
        X = (Z - Z.mean(0)) / Z.std(0)
        eta = X @ (a.normal(size=p) * (a.uniform(size=p) < c["q"]))
        yb = (a.uniform(size=n) < 1 / (1 + np.exp(-eta / max(1, eta.std())))).astype(float)
        if min(yb.sum(), n - yb.sum()) < 8:
            yb = (np.arange(n) % 2).astype(float)
        self.X, self.y = X, dict(gaussian=eta + a.normal(size=n) + a.normal(), binomial=yb)
        self.wobs = a.uniform(0.5, 2, size=n) if c["w"] else None
        self.glms, self.last, self.open = {}, {}, 0
        keep = X.copy(), {k: v.copy() for k, v in self.y.items()}
        self.left_out = None
        for op in sc["ops"]:
            f, lf, how = op.get("fault"), None, "returned"
            ctx.count("op:" + op["op"])
            ctx.steps += 1
            a = np.random.default_rng(op["s"])
            call, judge = getattr(self, "op_" + op["op"])(op, a)
            self.zeros = 0
            try:
                if f:
                    with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                        out = call()
                else:
                    out = call()
            except BaseException as e:
                if not faults.injected(e):
                    ctx.fail("penalised-fit-raised", "%s raised %s: %s" % (op["op"], type(e).__name__, str(e)[:200]))
                how = "interrupted"
                ctx.count("fault:" + f["kind"])
            else:
                if not (lf and lf.fired):
                    judge(out)
            ctx.check(np.array_equal(X, keep[0]) and all(np.array_equal(self.y[k], keep[1][k]) for k in keep[1]), "input-changed", "%s changed the data it was given" % op["op"])
            ctx.event(op["op"], how)
            ctx.state(op["op"], op["start"], op["order"], p, self.zeros, (f or {}).get("kind"), how)
        if self.left_out:
            ctx.fail("elastic-net-glm-left-a-variable-out", self.left_out)

    # ------------------------------------------------------------------ oracle
    def optimal(self, fam, X, y, w, b0, b, lam, alpha, what, intercept=True, tol=2e-5, known=False):
        """subgradient conditions of sum w * half deviance + lam (alpha |b| + (1 - alpha)/2 b^2)"""
        ctx = self.ctx
        b = np.asarray(b, float)
        ctx.check(np.all(np.isfinite(b)) and np.isfinite(b0), "not-the-optimum", "%s: coefficients are not finite" % what)
        eta = X @ b + b0
        if fam == "binomial" and np.abs(eta).max() > 9:
            ctx.count("probe:separated")
            return False
        r = w * (y - (eta if fam == "gaussian" else 1 / (1 + np.exp(-eta))))
        t = np.sum(np.abs(w)) * (np.std(y) + 1e-3) * max(1, np.abs(X).max() / 3)
        g = X.T @ r - lam * (1 - alpha) * b
        nz, la = b != 0, lam * alpha
        self.zeros = int((~nz).sum())
        ctx.count("probe:judged")
        if np.any(~nz):
            ctx.count("probe:zeros")
        m = np.abs(g - la * np.sign(b))[nz].max(initial=0) / t
        ctx.check(m < tol, "not-the-optimum", lambda: "%s: penalty %.5g ratio %.3g, subgradient %.3g away from zero at a non-zero coefficient" % (what, lam, alpha, m))
        if intercept:
            m0 = abs(r.sum()) / t
            ctx.check(m0 < tol, "not-the-optimum", lambda: "%s: penalty %.5g, residuals sum to %.3g" % (what, lam, m0))
        z = (np.abs(g)[~nz] - la).max(initial=0) / t
        if known and not z < tol:
            self.left_out = self.left_out or "%s: penalty %.5g ratio %.3g leaves out a variable whose gradient exceeds the penalty by %.3g" % (what, lam, alpha, z)
            return False
        ctx.check(z < tol, "variable-left-out", lambda: "%s: penalty %.5g ratio %.3g leaves out a variable whose gradient exceeds the penalty by %.3g" % (what, lam, alpha, z))
        return True

    def start(self, op, a, key):
        p = self.X.shape[1]
        if op["start"] == "last" and key in self.last:
            return self.last[key].copy()
        if op["start"] == "far":
            return a.normal(size=p) * 3
        if op["start"] == "sign" and key in self.last:
            return -self.last[key]
        if op["start"] == "zero":
            return np.zeros(p)
        return None

    def lams(self, op, a, top):
        l = top * np.exp(np.linspace(0, np.log(0.01), op["nl"] + 1))[(op["k"] & 1):]
        return l if op["order"] == "down" else l[::-1].copy() if op["order"] == "up" else a.permutation(l)

    def top(self, fam, alpha):
        y = self.y[fam]
        return np.abs(self.X.T @ (y - y.mean())).max() / len(y) / alpha

    # ------------------------------------------------------------------ gaussian coordinate descent
    def op_elnet(self, op, a):
        X, y = self.X, self.y["gaussian"]
        b = self.start(op, a, "gaussian")
        n_iters = 1 if op["k"] == 0 else 4000

        def judge(out):
            beta, fvals, active, its = out
            if its + 1 >= n_iters:
                self.ctx.count("probe:iterations")
                return
            self.optimal("gaussian", X, y - y.mean(), np.full(len(y), 1 / len(y)), 0.0, beta, op["lam"], op["alpha"], "elnet", False)
            self.last["gaussian"] = beta.copy()
            r = y - y.mean() - X @ beta
            pen = op["lam"] * (op["alpha"] * np.abs(beta).sum() + (1 - op["alpha"]) / 2 * np.sum(beta ** 2))
            self.ctx.close(fvals[-1], [r @ r / 2 / len(y), pen, r @ r / 2 / len(y) + pen], "wrong-objective", 1e-8, 1e-10, "objective values of elnet")
            self.ctx.check(np.all(np.diff(fvals[:, 2]) <= 1e-9 * (1 + fvals[0, 2])), "objective-rose", "elnet's objective rose along the iterations")
        return (lambda: self.ge.elnet(X, y, op["lam"], op["alpha"], b, n_iters=n_iters, dtol=1e-14)), judge

    def op_cvgauss(self, op, a):
        X, y = self.X, self.y["gaussian"]
        l = self.lams(op, a, self.top("gaussian", op["alpha"]))
        kw = dict(warm_start=bool(op["k"] & 2), seq_rule=bool(op["k"] & 4), dtol=1e-14, n_iters=4000)
        b = self.start(op, a, "gaussian")

        def judge(out):
            bcv, _, fv, lam, betas, _, its = out
            self.ctx.close(lam, l, "wrong-penalties", 0, 0, "penalties of cv_glmnet")
            for v, bt in zip(l, betas):
                self.optimal("gaussian", X, y - y.mean(), np.full(len(y), 1 / len(y)), 0.0, bt, v, op["alpha"], "cv_glmnet refit", False)
            self.last["gaussian"] = betas[-1].copy()
            for k, f in enumerate(np.array_split(np.arange(len(y)), 3)):
                tr = np.setdiff1d(np.arange(len(y)), f)
                for i, v in enumerate(l):
                    if its[i, k] + 1 < kw["n_iters"]:
                        self.optimal("gaussian", X[tr], y[tr] - y[tr].mean(), np.full(len(tr), 1 / len(tr)), 0.0, bcv[i, k], v, op["alpha"], "cv_glmnet fold", False)
        return (lambda: self.ge.cv_glmnet(3, X, y, op["alpha"], lambdas=l.copy(), b=b, **kw)), judge

    # ------------------------------------------------------------------ binomial coordinate descent
    def op_binom(self, op, a):
        X, y, n = self.X, self.y["binomial"], len(self.X)
        lam = op["lam"] / 4

        def judge(out):
            beta, fv, bh, sh = out
            if len(fv) >= 3000:
                return self.ctx.count("probe:iterations")
            if self.optimal("binomial", X, y, np.full(n, 1 / n), beta[0], beta[1:], lam, op["alpha"], "binom_elnet"):
                self.last["binomial"] = beta[1:].copy()
                eta = X @ beta[1:] + beta[0]
                f = np.mean(lse(eta) - y * eta) + lam * (op["alpha"] * np.abs(beta[1:]).sum() + (1 - op["alpha"]) / 2 * np.sum(beta[1:] ** 2))
                self.ctx.close(fv[-1], f, "wrong-objective", 1e-8, 1e-10, "objective value of binom_elnet")
        return (lambda: self.b2.binom_elnet(X, y, lam, op["alpha"], cd_kws=dict(dtol=1e-18, ftol=1e-13, n_iters=3000, max_iters=2000))), judge

    def op_bpath(self, op, a):
        X, y, n = self.X * 1.0, self.y["binomial"], len(self.X)
        s = np.exp(a.normal(size=X.shape[1]) * 0.5)
        l = self.lams(op, a, self.top("binomial", op["alpha"]))
        Xs = X * s + 0.3

        def judge(out):
            betas, fv, hist, lam = out
            self.ctx.close(lam, l, "wrong-penalties", 0, 0, "penalties of binom_elnet_path")
            for v, bt, h in zip(l, betas, hist):
                if len(h) < 3000:
                    self.optimal("binomial", X, y, np.full(n, 1 / n), bt[0] + 0.3 * bt[1:].sum(), bt[1:] * s, v, op["alpha"], "binom_elnet_path")
        return (lambda: self.b2.binom_elnet_path(Xs, y, np.ones(n), op["alpha"], l.copy(), cd_kws=dict(dtol=1e-18, ftol=1e-13, n_iters=3000, max_iters=2000))), judge

    def op_binom1(self, op, a):
        X, y, n = self.X, self.y["binomial"], len(self.X)
        lam, b = op["lam"] / 4, self.start(op, a, "binomial")
        if op["start"] == "far" and b is not None:
            b = b / 3

        def judge(out):
            beta, b0, active, fv, its = out
            if its >= 2999 or not np.all(np.isfinite(beta)):              # plain iteratively reweighted steps: no safeguard against a bad start
                return self.ctx.count("probe:iterations")
            if self.optimal("binomial", X, y, np.full(n, 1 / n), b0, beta, lam, op["alpha"], "binom_glmnet"):
                self.last["binomial"] = beta.copy()
        return (lambda: self.be.binom_glmnet(X, y, lam, op["alpha"], b, n_iters=3000, btol=1e-16, dtol=1e-15)), judge

    def op_cvbinom(self, op, a):
        X, y, n = self.X, self.y["binomial"], len(self.X)
        l = self.lams(op, a, self.top("binomial", op["alpha"]))[:4]

        def judge(out):
            bcv, b0cv, fv, lam, betas, b0s, its = out
            for v, bt, b0 in zip(l, betas, b0s):
                if not self.optimal("binomial", X, y, np.full(n, 1 / n), b0, bt, v, op["alpha"], "cv_binom_glmnet refit"):
                    return
        return (lambda: self.be.cv_binom_glmnet(3, X, y, op["alpha"], lambdas=l.copy(), btol=1e-16, dtol=1e-15, n_iters=3000, warm_start=bool(op["k"] & 2), seq_rule=bool(op["k"] & 4), nr_ent=False,
                                                rng=np.random.default_rng(op["s"]))), judge

    # ------------------------------------------------------------------ elastic-net GLM
    def glm(self, op):
        fam = "binomial" if op["k"] & 8 else "gaussian"
        key = fam, op["alpha"]
        if key not in self.glms:
            self.glms[key] = self.g2.ElasticNetGLM(self.X, self.y[fam], self.fam[fam](), wobs=self.wobs, alpha=op["alpha"])
        return fam, self.glms[key]

    KW = dict(n_iters=1000, ftol=1e-13, inner_kws=dict(max_iters=4000, dtol=1e-16))

    def weights(self):
        w = np.ones(len(self.X)) if self.wobs is None else self.wobs
        return w / w.sum()

    def op_glm(self, op, a):
        fam, m = self.glm(op)
        y, w = self.y[fam], self.weights()
        l = self.lams(dict(op, order="down"), a, self.top(fam, op["alpha"]))
        ws = bool(op["k"] & 2)

        def judge(out):
            betas, fv, hist = out
            for v, bt, h in zip(l, betas, hist):
                if len(h) < 900:
                    self.optimal(fam, self.X, y, w, bt[0], bt[1:], v, op["alpha"], "ElasticNetGLM path", known=True)
                    self.ctx.close(m.obj_func(bt, v), self.objective(fam, bt, v, op["alpha"]), "wrong-objective", 1e-9, 1e-10, "objective of ElasticNetGLM")
        return (lambda: m._glm_elnet_path(m.X, m.Xsq, m.y, m.wobs, l.copy(), kws=dict(self.KW), warm_start=ws)), judge

    def op_glm1(self, op, a):
        """one penalty from a given start, nothing screened"""
        fam, m = self.glm(op)
        y, w = self.y[fam], self.weights()
        lam = op["lam"] / (4 if fam == "binomial" else 1)
        b = np.zeros(self.X.shape[1] + 1)
        s = self.start(op, a, fam)
        if s is not None:
            b[1:] = s / (1 if fam == "gaussian" else 4)
        b[0] = y.mean() if fam == "gaussian" else 0.0
        arg = b.copy()

        def judge(out):
            bt, h = out
            self.ctx.check(np.array_equal(b, arg), "input-changed", "_glm_elnet changed its starting values")
            if len(h) < 900:
                self.optimal(fam, self.X, y, w, bt[0], bt[1:], lam, op["alpha"], "ElasticNetGLM", known=True)
                self.last[fam] = bt[1:].copy()
        return (lambda: m._glm_elnet(b, m.X, m.X ** 2, m.y, m.wobs, lam, 2.0 * lam + 1e-9, **self.KW)), judge

    def objective(self, fam, bt, lam, alpha):
        eta = np.clip(self.X @ bt[1:] + bt[0], -36, 36)
        y, w = self.y[fam], self.weights()
        d = (y - eta) ** 2 / 2 if fam == "gaussian" else lse(eta) - y * eta
        return w @ d + lam * (alpha * np.abs(bt[1:]).sum() + (1 - alpha) / 2 * np.sum(bt[1:] ** 2))

    def op_value(self, op, a):
        fam, m = self.glm(op)
        p = self.X.shape[1]
        bt = np.r_[a.normal() * 0.3, a.normal(size=p) * (0.2 + (op["k"] & 1))]
        lam, alpha, w, X, y = op["lam"], op["alpha"], self.weights(), self.X, self.y[fam]

        def call():
            return m.obj_func(bt, lam), m.obj_grad(bt, lam), m.obj_hess(bt, lam), m.pen_func(bt, lam), m.crossval_path(bt[None], [lam], X, y, m.wobs)

        def judge(out):
            f, g, H, pen, cv = out
            eta = X @ bt[1:] + bt[0]
            mu = eta if fam == "gaussian" else 1 / (1 + np.exp(-eta))
            v = w * (np.ones_like(mu) if fam == "gaussian" else mu * (1 - mu))
            X1 = np.column_stack([np.ones(len(y)), X])
            P = lam * (alpha * np.abs(bt[1:]).sum() + (1 - alpha) / 2 * np.sum(bt[1:] ** 2))
            full = self.objective(fam, bt, lam, alpha)
            self.ctx.close(f, full, "wrong-objective", 1e-9, 1e-10, "obj_func")
            self.ctx.close(pen, P, "wrong-objective", 1e-9, 1e-12, "pen_func")
            self.ctx.close(g, -X1.T @ (w * (y - mu)) + np.r_[0, lam * (alpha * np.sign(bt[1:]) + (1 - alpha) * bt[1:])], "wrong-objective", 1e-8, 1e-10, "obj_grad")
            self.ctx.close(H, X1.T @ (X1 * v[:, None]) + np.diag(np.r_[0, np.full(p, lam * (1 - alpha))]), "wrong-objective", 1e-8, 1e-10, "obj_hess")
            self.ctx.close(cv, 2 * (full - P), "wrong-objective", 1e-8, 1e-10, "crossval_path")
        return call, judge

    def op_start(self, op, a):
        """the largest penalty of the path admits nothing and anything smaller admits a variable"""
        fam, m = self.glm(op)
        y, w = self.y[fam], self.weights()

        def judge(out):
            lam, null, b, eta, mu = out
            g = np.abs(self.X.T @ (w * (y - w @ y))).max()
            self.ctx.close(lam[0] * max(op["alpha"], 1e-3), g, "wrong-penalties", 1e-8, 1e-12, "largest penalty of the path")
            self.ctx.check(len(lam) == op["nl"] + 1 and np.all(np.diff(lam) < 0), "wrong-penalties", "path of %d penalties for %d asked, or not decreasing" % (len(lam), op["nl"] + 1))
            self.ctx.close(mu, np.full(len(y), w @ y), "wrong-start", 1e-10, 1e-12, "mean of the model without variables")
            z = np.r_[b[0], np.zeros(self.X.shape[1])]
            self.ctx.close(null, 2 * self.objective(fam, z, 0, 1), "wrong-start", 1e-8, 1e-10, "deviance of the model without variables")
        return (lambda: m.get_start_param(op["nl"] + 1, lambda_min_ratio=1e-2)), judge

    def op_glmen(self, op, a):
        fam = "binomial" if op["k"] & 8 else "gaussian"
        X, y, n = self.X, self.y[fam], len(self.X)
        key = "glmen", fam
        if key not in self.glms:
            self.glms[key] = self.g1.GLMEN(X=X, y=y, family=fam)
        m = self.glms[key]
        lam = op["lam"] / (4 if fam == "binomial" else 1)

        def call():
            if fam == "gaussian":
                m.fit(lam, op["alpha"], dtol=1e-14)
            else:
                m.fit(lam, op["alpha"], btol=1e-16, dtol=1e-15)
            return m.beta.copy(), np.asarray(m.active).copy(), m.predict() if fam == "gaussian" else None

        def judge(out):
            beta, active, yhat = out
            if len(m.fvals) >= 990:
                return self.ctx.count("probe:iterations")
            if fam == "gaussian":
                self.optimal(fam, X, y - y.mean(), np.full(n, 1 / n), 0.0, beta, lam, op["alpha"], "GLMEN", False)
                self.ctx.close(yhat, X @ beta + y.mean(), "wrong-prediction", 1e-10, 1e-10, "GLMEN.predict")
                self.ctx.check(active.shape == beta.shape and np.all(active[beta != 0]), "wrong-active-set", "GLMEN.active is not the set of variables in the model")
            else:
                self.optimal(fam, X, y, np.full(n, 1 / n), m.b0, beta, lam, op["alpha"], "GLMEN")
        return call, judge

    # ------------------------------------------------------------------ least-angle regression, proximal gradient
    def op_lars(self, op, a):
        X = self.X * np.exp(a.normal(size=self.X.shape[1]) * (op["k"] & 1)) + (op["k"] & 2)
        y = self.y["gaussian"]
        method = "lasso" if op["k"] & 12 else "lars"
        kw = dict(intercept=True, standardize=op["k"] % 3 == 0)
        Xc, yc = X - X.mean(0), y - y.mean()
        if kw["standardize"]:
            Xc = Xc / X.std(0)

        def judge(out):
            lam, active, B = out
            n, s = len(y), np.abs(Xc.T @ yc).max() / len(y)
            G = (Xc.T @ (yc[:, None] - Xc @ B.T) / n).T
            top = np.abs(G).max(1)
            self.ctx.count("probe:judged")
            self.ctx.close(lam, top, "wrong-penalties", 0, 1e-7 * s, "penalties of lars")
            self.ctx.check(np.all(np.diff(lam) <= 1e-9 * s), "wrong-penalties", "penalties of lars rise along the path")
            for b, g, t in zip(B, G, top):
                nz = b != 0
                d = np.abs(np.abs(g) - t)[nz].max(initial=0) if method == "lars" else np.abs(g - t * np.sign(b))[nz].max(initial=0)
                self.ctx.check(d < 1e-6 * s, "not-the-optimum", lambda: "%s: knot at penalty %.5g has a variable in the model with gradient %.3g off" % (method, t, d))
            self.ctx.check(np.all(B[0] == 0), "wrong-path", "the path of lars does not start at zero")
            if len(active) == X.shape[1]:
                self.ctx.close(B[-1], np.linalg.lstsq(Xc, yc, rcond=None)[0], "wrong-path", 1e-6, 1e-7, "end of the path of lars")
            if method == "lasso" and np.any((B[:-1] != 0) & (B[1:] == 0)):
                self.ctx.count("probe:left-path")
        return (lambda: self.la.lars(X, y, method=method, **kw)), judge

    def op_lasso(self, op, a):
        X, y = self.X, self.y["gaussian"] - self.y["gaussian"].mean()
        n = len(y)
        G = X.T @ X
        L = np.linalg.eigvalsh(G)[-1] / n
        b = self.start(op, a, "gaussian")
        b = np.zeros(X.shape[1]) if b is None else b

        def judge(out):
            bt, fh = out
            r = y - X @ bt
            self.ctx.close(fh[0], self.lobj(X, y, b, op["lam"]), "wrong-objective", 1e-9, 1e-12, "objective of lasso_prox_grad")
            self.ctx.check(np.all(np.diff(fh[:-1, 2]) <= 1e-12 * (1 + fh[0, 2])), "objective-rose", "lasso_prox_grad's objective rose before it stopped")
            if len(fh) <= 1500 and fh[-1, 2] <= fh[-2, 2]:
                self.optimal("gaussian", X, y, np.full(n, 1 / n), 0.0, bt, op["lam"], 1.0, "lasso_prox_grad", False, tol=1e-4)
        return (lambda: self.ls.lasso_prox_grad(b.copy(), X, y, X.T @ y, G, op["lam"], L, n_iters=1500, rtol=0, atol=1e-9)), judge

    def lobj(self, X, y, b, lam):
        r = y - X @ b
        h = lam * np.abs(b).sum()
        return [r @ r / 2 / len(y), h, r @ r / 2 / len(y) + h]


WORLD = W
