"""C15: cross-validation.  Every shuffle is dealt by the simulator; folds, fold fits and held-out scores are judged."""
import os
import warnings
import numpy as np
from ..core import World
from .. import faults, rngs, jitcache

FAM = ("gaussian", "gaussian", "binomial", "binomial", "poisson")
OPS = ("folds", "folds", "folds", "glm", "glm", "glm_cv", "glm_cv", "gauss", "gauss", "binom", "binom2", "scca")
TIGHT = dict(n_iters=300, ftol=1e-13, inner_kws=dict(max_iters=3000, dtol=1e-15))


def half_deviance(fam, y, eta):
    """-log-likelihood per row up to the saturated value"""
    eta = np.clip(eta, -36, 36)
    if fam == "gaussian":
        return (y - eta) ** 2 / 2
    if fam == "binomial":
        return np.logaddexp(0, eta) - y * eta
    mu = np.exp(eta)
    return np.where(y > 0, y * np.log(np.where(y > 0, y, 1) / mu), 0) - (y - mu)


def mean(fam, eta):
    eta = np.clip(eta, -36, 36)
    return eta if fam == "gaussian" else 1 / (1 + np.exp(-eta)) if fam == "binomial" else np.exp(eta)


def lower(M):
    return np.concatenate([M[j:, j] for j in range(M.shape[0])])


class W(World):
    prop = "C15"
    technique = ("seeded simulation of cross-validation: the simulator deals every shuffle (ordinary, identity, reversed, one swap, shifted, repeated), interrupts executed lines and reuses the interrupted object; folds are judged as "
                 "a partition, each fold's coefficients against a fit of its training rows and the first-order conditions on them, each score against a direct evaluation on the held-out rows")
    rule = ("a run makes 1-4 cross-validations (fold construction alone, elastic-net GLM by fit and by its fold loop, gaussian and binomial coordinate descent, sparse CCA) under dealt shuffles and faults, "
            "some on an object used before; non-trivial: at least one set of folds or scores was judged")
    states_measure = "distinct (procedure, family, folds, repetitions, rows mod folds, shuffle modes, fault kind, outcome) tuples"
    real = ("pystatsm.pyglmnet eln_utils, glmen, glmen2, gaussian_eln, binomial_eln, binom_eln2", "pystatsm.pyscca.scca cross-validation", "compiled numba kernels")
    stub = ("random index source (dealt by the simulator)", "tqdm progress bar (disabled)")
    assumptions = ("first-order conditions are judged on the non-zero coefficients: the active-set rules may leave a variable out", "fold weights are the observation weights, not renormalised within the fold",
                   "variables are standardised within the training rows by the elastic-net GLM and not at all by GLMEN", "sparse CCA centres and scales held-out rows by their own moments, and starts from directions of the whole data")
    quick_runs, thorough_runs = 3500, 150000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        os.environ["TQDM_DISABLE"] = "1"
        jitcache.enable(self.root[: -len("pystatsm/")])
        import pystatsm.pyglmnet.eln_utils as u
        import pystatsm.pyglmnet.glmen as g1
        import pystatsm.pyglmnet.glmen2 as g2
        import pystatsm.pyglmnet.gaussian_eln as ge
        import pystatsm.pyglmnet.binomial_eln as be
        import pystatsm.pyglmnet.binom_eln2 as b2
        import pystatsm.pyscca.scca as sc
        import pystatsm.pyglm.families as f
        self.u, self.g1, self.g2, self.ge, self.be, self.b2, self.sc = u, g1, g2, ge, be, b2, sc
        self.fam = dict(gaussian=f.Gaussian, binomial=f.Binomial, poisson=f.Poisson)
        a = np.random.default_rng(0)
        X, y = a.normal(size=(24, 3)), (np.arange(24) % 2).astype(float)

        def warm_glm():
            for fam in self.fam:
                for yy in (y, y.astype(int)):
                    g2.ElasticNetGLM(X, yy, self.fam[fam](), alpha=0.9).fit(n_lambdas=5, cv=3)
        jobs = [warm_glm, lambda: ge.cv_glmnet(3, X, y, lambdas=4), lambda: be.cv_binom_glmnet(3, X, y, lambdas=4),
                lambda: b2.binom_glmnet_cv(X, y, lambdas=4, cv=3), lambda: sc.SCCA(X, X[:, :2] + a.normal(size=(24, 2))).crossval(3, 2, 3)]
        jitcache.parallel_warm(jobs)
        for j in jobs:
            j()

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            op = dict(op=r.choice(OPS), fam=r.choice(FAM), n=r.choice([12, 17, 20, 31, 40, 60]), p=r.choice([1, 2, 3, 3, 4, 6]), cv=r.choice([2, 2, 3, 4, 5, 7]), rep=r.choice([1, 1, 2, 3]),
                      nl=r.choice([2, 3, 5, 9]), alpha=r.choice([0.99, 0.9, 0.5, 1.0, 0.2]), s=r.randrange(1 << 20), k=r.randrange(16), again=r.random() < 0.4)
            if op["op"] == "folds":
                op["n"] = r.choice([1, 2, 3, 5, 7, 12, 13, 20, 31])
                op["cv"] = r.choice([2, 2, 3, 4, 5, 7, 10])
            if r.random() < 0.2:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 6 if op["op"] == "folds" else 12)))
            elif r.random() < 0.1:
                op["drawfault"] = dict(kind=r.choice(["interrupt", "memory"]), k=r.randrange(1, 6))
            ops.append(op)
        modes = [r.choice(rngs.MODES_PERM) for _ in range(r.choice([1, 2, 3]))]
        return dict(config=dict(seed=r.randrange(1 << 30), modes=modes), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        if c["modes"] != ["iid"]:
            yield dict(sc, config=dict(c, modes=["iid"]))
        for i, op in enumerate(sc["ops"]):
            for k, v in (("p", 1), ("p", 2), ("cv", 2), ("cv", 3), ("rep", 1), ("rep", 2), ("nl", 2), ("again", False), ("n", 12), ("n", 20)):
                if op[k] != v and not (k in ("p", "cv", "rep", "nl", "n") and op[k] < v):
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])

    def nontrivial(self, sc, res):
        return res["counts"].get("probe:judged", 0) > 0

    def execute(self, sc, ctx):
        c = sc["config"]
        self.ctx, self.kept = ctx, {}
        for i, op in enumerate(sc["ops"]):
            df, f = op.get("drawfault"), op.get("fault")
            d = rngs.Dealer(c["seed"] + 7 * i, c["modes"], df and df["k"], df and faults.exc_type(df["kind"]))
            ctx.count("op:" + op["op"])
            ctx.steps += 1
            self.d = d
            lf, how = None, "returned"
            a = np.random.default_rng(op["s"])
            call, judge = getattr(self, "op_" + op["op"])(op, a)
            self.seen = []
            try:
                with rngs.patched_numpy(d), self.watch():
                    if f:
                        with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                            out = call()
                    else:
                        out = call()
            except BaseException as e:
                if not faults.injected(e):
                    ctx.fail("cross-validation-raised", "%s raised %s: %s" % (op["op"], type(e).__name__, str(e)[:200]))
                how = "interrupted"
                ctx.count("fault:" + (f or df)["kind"])
            else:
                if not (lf and lf.fired):
                    ctx.count("probe:judged")
                    judge(out)
            ctx.event(op["op"], how, d.n)
            ctx.state(op["op"], op["fam"], op["cv"], op["rep"], op["n"] % op["cv"], "".join(sorted(set(c["modes"]))), (f or df or {}).get("kind"), how)

    def watch(self):
        """records the folds each procedure asks for, at the seam between procedures and fold construction"""
        import contextlib

        @contextlib.contextmanager
        def w():
            mods = (self.g2, self.b2, self.u, self.sc)
            old = [(m, m.kfold_indices) for m in mods if hasattr(m, "kfold_indices")]
            for m, fn in old:
                def spy(*a, _f=fn, **k):
                    r = _f(*a, **k)
                    self.seen.append(r)
                    return r
                m.kfold_indices = spy
            try:
                yield
            finally:
                for m, fn in old:
                    m.kfold_indices = fn
        return w()

    # ------------------------------------------------------------------ data and judges
    def ok(self, c, kind, what):
        self.ctx.check(bool(c), kind, what)

    def near(self, x, y, kind, tol=1e-8, what=""):
        self.ctx.close(x, y, kind, rtol=tol, atol=tol, what=what)

    def data(self, op, a, fam):
        n, p = op["n"], op["p"]
        X = a.normal(size=(n, p)) @ np.diag(np.exp(a.normal(size=p) * 0.4)) + a.normal(size=p)
        eta = (X - X.mean(0)) @ (a.normal(size=p) * 0.6) / np.sqrt(p)
        if fam == "gaussian":
            y = eta + a.normal(size=n) + a.normal() * 2
        elif fam == "poisson":
            y = a.poisson(np.exp(np.clip(eta * 0.5, -2, 2) + 0.7)).astype(float)
            y[:2] = 1, 2
        else:
            y = (a.uniform(size=n) < 1 / (1 + np.exp(-eta))).astype(float)
            k = 2 * op["cv"]
            if min(y.sum(), n - y.sum()) < op["cv"] + 1:                 # every fold trains and tests on both classes
                y = (np.arange(n) % 2).astype(float)
        if op["k"] & 1:                                                   # rows in class or value order: unshuffled folds are then uneven
            ix = np.argsort(y, kind="stable")
            X, y = X[ix], y[ix]
        return X, y

    def cvs(self, op):
        return min(op["cv"], op["n"] // 6 if op["fam"] == "binomial" or op["op"] in ("binom", "binom2") else op["n"] // 3) if op["op"] != "folds" else op["cv"]

    def partition(self, inds, n, k, y=None, name="kfold_indices"):
        self.ok(len(inds) == k, "wrong-folds", "%s gives %d folds for %d asked" % (name, len(inds), k))
        tests = [np.asarray(t) for _, t in inds]
        for j, (f, t) in enumerate(inds):
            both = np.sort(np.concatenate([f, t]))
            self.ok(np.array_equal(both, np.arange(n)), "wrong-folds", "%s: training and test rows of fold %d are not together every row once" % (name, j))
        self.ok(np.array_equal(np.sort(np.concatenate(tests)), np.arange(n)), "wrong-folds", "%s: test folds do not hold every row once" % name)
        groups = [np.ones(n, bool)] if y is None else [y == v for v in np.unique(y)]
        for g in groups:
            s = [int(g[t.astype(int)].sum()) for t in tests]
            self.ok(max(s) - min(s) <= 1, "uneven-folds", "%s: fold sizes %s%s" % (name, s, "" if y is None else " within a class"))

    def path(self, lam):
        lam = np.asarray(lam, float)
        self.ok(np.all(np.isfinite(lam)) and np.all(lam > 0), "wrong-lambdas", "penalties are not positive")
        self.ok(np.all(np.diff(lam) <= 0) or np.all(np.diff(lam) >= 0), "wrong-lambdas", "the path of penalties is not in order")

    def stationary(self, fam, X, y, w, b0, b, lam, alpha, scale, kind, what, tol, intercept=True):
        """first-order conditions of sum w * half deviance + lam (alpha |s b| + (1 - alpha)/2 (s b)^2) on the non-zero coefficients"""
        eta = X @ b + b0
        if np.abs(eta).max() > 12 or (fam == "binomial" and alpha > 0.98 and not np.all(np.isfinite(eta))):
            self.ctx.count("probe:separated")
            return
        r = w * (y - mean(fam, eta))
        s = np.std(X, axis=0) if scale else np.ones(X.shape[1])
        Z = (X - X.mean(0)) / s if scale else X
        t = np.abs(w).sum() * (1 + np.abs(y).max())
        bs = b * s
        g = -Z.T @ r + lam * (1 - alpha) * bs + lam * alpha * np.sign(bs)
        nz = bs != 0
        m = np.abs(g[nz]).max(initial=0) / t
        self.ctx.check(m < tol, kind, lambda: "%s: gradient of the penalised training deviance at a non-zero coefficient is %.3g" % (what, m))
        if intercept:
            m0 = abs(r.sum()) / t
            self.ctx.check(m0 < tol, kind, lambda: "%s: training residuals sum to %.3g" % (what, m0))
        pen = lam * (alpha * np.abs(bs).sum() + (1 - alpha) / 2 * np.sum(bs ** 2))
        f = np.sum(w * half_deviance(fam, y, eta)) + pen
        ym = np.sum(w * y) / np.sum(w)
        e0 = ym if fam == "gaussian" else np.log(ym / (1 - ym)) if fam == "binomial" else np.log(ym)
        if intercept:
            f0 = np.sum(w * half_deviance(fam, y, np.full(len(y), e0)))
            self.ctx.check(f <= f0 + tol * t, kind, lambda: "%s: penalised training deviance %.6g above %.6g of the model without variables" % (what, f, f0))

    # ------------------------------------------------------------------ folds
    def op_folds(self, op, a):
        n, k, which = op["n"], op["cv"], op["k"] % 5
        X = np.arange(n)[:, None] * np.ones((1, 2))
        y = a.integers(0, 1 + op["p"], size=n)
        if op["k"] & 8:
            y = np.sort(y)
        if which == 4:
            return (lambda: self.sc.kfold_indices(n, k)), lambda r: self.partition(r, n, k, name="scca.kfold_indices")
        if which == 3:
            cat = bool(op["k"] & 4)

            def judge(r):
                self.ok([len(x) for x in r] == [k] * 4, "wrong-folds", "crossval_mats returns %s matrices" % [len(x) for x in r])
                inds = [(f[:, 0].astype(int), t[:, 0].astype(int)) for f, t in zip(r[0], r[2])]
                self.partition(inds, n, k, y if cat else None, "crossval_mats")
                for (f, t), yf, yt in zip(inds, r[1], r[3]):
                    self.ok(np.array_equal(y[f], yf) and np.array_equal(y[t], yt), "wrong-folds", "crossval_mats: y rows are not those of X")
            return (lambda: self.u.crossval_mats(X, y, n, k, cat)), judge
        cat = which == 2
        rs = None if op["k"] & 4 else rngs.SimGenerator(self.d)
        kw = dict(categorical=cat, randomize=op["s"] % 4 > 0)
        if rs is not None or op["k"] & 1:
            kw["random_state"] = rs
        return (lambda: self.u.kfold_indices(n, k, y, **kw)), lambda r: self.partition(r, n, k, y if cat else None)

    # ------------------------------------------------------------------ elastic-net GLM
    def glm(self, op, a):
        key = ("glm", op["fam"])
        if op["again"] and key in self.kept:
            return self.kept[key]
        X, y = self.data(op, a, op["fam"])
        w = None if op["k"] & 2 else a.uniform(0.5, 2, size=len(y))
        if op["fam"] == "binomial" and op["k"] & 4:
            y = y.astype(int)
        m = self.g2.ElasticNetGLM(X, y, self.fam[op["fam"]](), wobs=w, alpha=op["alpha"])
        w = np.ones(len(y)) if w is None else w
        Z = (X - X.mean(0)) / X.std(0)
        self.kept[key] = (m, Z, y, w / w.sum(), op["alpha"], min(self.cvs(op), len(y) // 3), op["fam"])
        return self.kept[key]

    def glm_scores(self, name, fam, Z, y, w, alpha, cv, rep, lam, betas, fvals, tol):
        """betas[j, k, i], fvals[j, i, k]; folds are those asked for"""
        self.path(lam)
        nl, p = len(lam), Z.shape[1]
        self.ok(np.shape(betas) == (rep, cv, nl, p + 1) and np.shape(fvals) == (rep, nl, cv), "shape", "%s: shapes %s, %s" % (name, np.shape(betas), np.shape(fvals)))
        if len(self.seen) != rep:
            self.ctx.count("probe:folds-unseen")
            return None
        folds = self.seen[:]
        for j, inds in enumerate(folds):
            self.partition(inds, len(y), cv, y if fam == "binomial" else None, name)
            for k, (f, t) in enumerate(inds):
                for i in range(nl):
                    b = betas[j, k, i]
                    eta = Z[t] @ b[1:] + b[0]
                    s = 2 * np.sum(w[t] * half_deviance(fam, y[t], eta)) / np.sum(w[t])
                    if np.abs(eta).max() > 15:
                        self.ctx.count("probe:separated")
                        continue
                    self.near(fvals[j, i, k] / (1 + s), s / (1 + s), "wrong-score", 1e-6, "%s: score of fold %d, penalty %d against the held-out deviance of the coefficients reported" % (name, k, i))
                    self.stationary(fam, Z[f], y[f], w[f], b[0], b[1:], lam[i], alpha, True, "not-fitted-on-training-rows", "%s: fold %d, penalty %d of %d" % (name, k, i, nl), tol)
        return folds

    def op_glm(self, op, a):
        m, Z, y, w, alpha, cv, fam = self.glm(op, a)
        nl, rep = op["nl"], op["rep"]
        kw = dict(TIGHT, inner_kws=dict(TIGHT["inner_kws"]))

        def judge(_):
            lam = np.asarray(m.lambdas)
            self.ok(len(lam) == nl, "wrong-lambdas", "fit: %d penalties for %d asked" % (len(lam), nl))
            betas = np.transpose(np.asarray(m.beta_path), (2, 3, 0, 1))
            fv = np.moveaxis(np.asarray(m.f_paths), (0, 1, 2), (1, 0, 2))
            self.glm_scores("fit", fam, Z, y, w, alpha, cv, rep, lam, betas, fv, 1e-4)
            score = np.asarray(m.f_paths).mean(axis=(1, 2))
            i = int(m.lmin_idx)
            self.ok(score[i] <= score.min() + 1e-12 * (1 + abs(score.min())), "wrong-choice", "fit: penalty %d has mean score %.9g, the smallest is %.9g" % (i, score[i], score.min()))
            self.near(m.lmin, lam[i], "wrong-choice", 1e-12, "penalty chosen")
            self.near(m.beta, m.betas[i], "wrong-choice", 1e-12, "coefficients chosen")
            self.near(m.eta, np.clip(Z @ m.beta[1:] + m.beta[0], -36, 36), "wrong-choice", 1e-9, "linear predictor of the choice")
            self.near(m.mu, mean(fam, Z @ m.beta[1:] + m.beta[0]), "wrong-choice", 1e-9, "mean of the choice")
            for j in range(nl):
                b = m.betas[j]
                self.stationary(fam, Z, y, w, b[0], b[1:], lam[j], alpha, True, "not-fitted-on-all-rows", "final path, penalty %d" % j, 2e-2)
                dv = 2 * np.sum(w * half_deviance(fam, y, Z @ b[1:] + b[0]))
                if np.abs(Z @ b[1:] + b[0]).max() < 15:
                    self.near(m.dev_vals[j], dv, "wrong-score", 1e-6, "deviance of all rows at penalty %d" % j)
        return (lambda: m.fit(n_lambdas=nl, cv=cv, n_rep=rep, kws=kw)), judge

    def op_glm_cv(self, op, a):
        m, Z, y, w, alpha, cv, fam = self.glm(op, a)
        rep, nl = op["rep"], op["nl"]
        X = a.normal(size=Z.shape) * 1.5 + Z + a.normal(size=Z.shape[1]) if op["k"] & 8 else Z
        lam = m.get_start_param(nl)[0] if op["k"] & 2 else np.geomspace(0.3, 0.003, nl) * (1 + np.abs(y).mean())
        loop = getattr(m, "_glm_elnet_cv", None)
        if loop is None:
            self.ctx.count("probe:loop-gone")
            return (lambda: None), (lambda r: None)

        def judge(r):
            betas, fv, l2 = r
            self.near(l2, lam, "wrong-lambdas", 1e-12, "penalties returned")
            folds = self.glm_scores("fold loop", fam, X, y, w, alpha, cv, rep, lam, betas, fv, 1e-4)
            if folds is None:
                return
            fresh = self.g2.ElasticNetGLM(Z, y, self.fam[fam](), wobs=w.copy(), alpha=alpha)
            for j, k in {(0, 0), (rep - 1, cv - 1)}:
                f = folds[j][k][0]
                b = fresh._glm_elnet_path(X[f].copy(), X[f] ** 2, y[f].copy(), w[f].copy(), lam.copy(), kws=dict(TIGHT, inner_kws=dict(TIGHT["inner_kws"])))[0]
                self.near(betas[j, k], b, "not-fitted-on-training-rows", 1e-7, "coefficients of repetition %d fold %d against a fit of its training rows by themselves" % (j, k))
        return (lambda: loop(X, X ** 2, y, w, lam, cv=cv, n_rep=rep, kws=dict(TIGHT, inner_kws=dict(TIGHT["inner_kws"])))), judge

    # ------------------------------------------------------------------ coordinate descent by formula
    def op_gauss(self, op, a):
        key = "gauss"
        if op["again"] and key in self.kept:
            m, X, y = self.kept[key]
        else:
            X, y = self.data(dict(op, fam="gaussian"), a, "gaussian")
            m = self.g1.GLMEN(X=X.copy(), y=y.copy(), family="gaussian")
            self.kept[key] = (m, X, y)
        cv, alpha, n = min(op["cv"], len(y) // 3), op["alpha"], len(y)
        kw = dict(warm_start=bool(op["k"] & 1), seq_rule=bool(op["k"] & 2), dtol=1e-14, n_iters=20000)
        lam = op["nl"] if op["k"] & 4 else np.geomspace(1, 0.01, op["nl"])

        def judge(_):
            ls = np.asarray(m.lambdas)
            self.path(ls)
            inds = self.seen[0] if self.seen else self.u.kfold_indices(n, cv, y)
            self.partition(inds, n, cv, None, "gaussian CV")
            bp = np.asarray(m.beta_path)
            self.ok(bp.shape == (len(ls), cv, X.shape[1]), "shape", "beta_path has shape %s" % (bp.shape,))
            for k, (f, t) in enumerate(inds):
                yf = y[f] - y[f].mean()
                start = np.zeros(X.shape[1])
                for i, l in enumerate(ls):
                    what = "gaussian CV: fold %d, penalty %d" % (k, i)
                    b = bp[i, k]
                    r = y[t] - y[f].mean() - X[t] @ b
                    mse = np.mean(r ** 2)
                    pen = l * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * np.sum(b ** 2))
                    s = np.array([mse, pen, mse / 2 + pen])
                    self.near(m.f_path[i, k] / (1 + s), s / (1 + s), "wrong-score", 1e-8, what + ": scores (mean squared error, penalty, objective) on the held-out rows")
                    self.stationary("gaussian", X[f], yf, np.full(len(f), 1 / len(f)), 0.0, b, l, alpha, False, "not-fitted-on-training-rows", what, 1e-5, intercept=False)
                    if kw["warm_start"]:
                        own = self.ge.elnet(X[f].copy(), y[f].copy(), l, alpha, start.copy(), dtol=1e-14, n_iters=20000)[0]
                        self.near(b, own, "not-fitted-on-training-rows", 1e-9, what + ": coefficients against a fit of the training rows by themselves")
                        start = own
            self.choice(m, ls)
            for i, l in enumerate(ls):
                self.stationary("gaussian", X, y - y.mean(), np.full(n, 1 / n), 0.0, m.bfits[i], l, alpha, False, "not-fitted-on-all-rows", "gaussian refit, penalty %d" % i, 1e-5, intercept=False)
            self.near(m.predict(), X @ m.beta + y.mean(), "wrong-choice", 1e-9, "predict")
        return (lambda: m.fit_cv(cv=cv, alpha=alpha, lambdas=lam, **kw)), judge

    def choice(self, m, ls):
        mf = np.asarray(m.f_path)[:, :, 0]
        sc = mf.mean(axis=1)
        self.near(m.cvres["mean"].values, sc, "wrong-choice", 1e-9, "mean scores")
        self.near(m.cvres["std"].values, mf.std(axis=1, ddof=1) / np.sqrt(mf.shape[1]), "wrong-choice", 1e-9, "standard errors of the scores")
        i = int(m.lmin_idx)
        self.ok(sc[i] <= sc.min() + 1e-12, "wrong-choice", "penalty %d has mean score %.9g, the smallest is %.9g" % (i, sc[i], sc.min()))
        self.near(m.lambda_min, ls[i], "wrong-choice", 1e-12, "penalty chosen")
        self.near(m.beta, m.bfits[i], "wrong-choice", 1e-12, "coefficients chosen")
        self.ok(np.array_equal(m.n_nonzero, (np.asarray(m.bfits) != 0).sum(1)), "wrong-choice", "n_nonzero is not the count of non-zero coefficients")

    def op_binom(self, op, a):
        key = "binom"
        if op["again"] and key in self.kept:
            m, X, y = self.kept[key]
        else:
            X, y = self.data(dict(op, fam="binomial"), a, "binomial")
            X = X - X.mean(0)
            m = self.g1.GLMEN(X=X.copy(), y=y.copy(), family="binomial")
            self.kept[key] = (m, X, y)
        cv, alpha, n = min(self.cvs(op), len(y) // 6), op["alpha"], len(y)
        kw = dict(warm_start=bool(op["k"] & 1), seq_rule=bool(op["k"] & 2), dtol=0.0, btol=1e-18, n_iters=3000, nr_ent=bool(op["k"] & 8))
        lam = np.geomspace(0.2, 0.01, op["nl"])

        def judge(_):
            ls = np.asarray(m.lambdas)
            self.path(ls)
            inds = self.seen[0] if self.seen else self.u.kfold_indices(n, cv, y, True)
            self.partition(inds, n, cv, y, "binomial CV")
            bp, b0 = np.asarray(m.beta_path), np.asarray(m.b0_path)
            for k, (f, t) in enumerate(inds):
                for i, l in enumerate(ls):
                    what = "binomial CV: fold %d, penalty %d" % (k, i)
                    b = bp[i, k]
                    eta = X[t] @ b + b0[i, k]
                    if np.abs(eta).max() < 15:
                        ll = np.sum(half_deviance("binomial", y[t], eta)) / len(t)
                        pen = l * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * np.sum(b ** 2))
                        s = np.array([2 * ll, pen, ll + pen])
                        self.near(m.f_path[i, k] / (1 + s), s / (1 + s), "wrong-score", 1e-8, what + ": scores (deviance, penalty, objective) on the held-out rows")
                    self.stationary("binomial", X[f], y[f], np.full(len(f), 1 / len(f)), b0[i, k], b, l, alpha, False, "not-fitted-on-training-rows", what, 1e-4)
            self.choice(m, ls)
            for i, l in enumerate(ls):
                self.stationary("binomial", X, y, np.full(n, 1 / n), m.b0[i], m.bfits[i], l, alpha, False, "not-fitted-on-all-rows", "binomial refit, penalty %d" % i, 1e-4)
        return (lambda: m.fit_cv(cv=cv, alpha=alpha, lambdas=lam, **kw)), judge

    def op_binom2(self, op, a):
        X, y = self.data(dict(op, fam="binomial"), a, "binomial")
        cv, alpha, n, rep = self.cvs(op), op["alpha"], len(y), op["rep"]
        lam = np.geomspace(0.2, 0.01, op["nl"]) if op["k"] & 4 else op["nl"]
        kw = dict(n_iters=400, dtol=1e-28, ftol=1e-13, max_iters=2000)

        def judge(r):
            betas, fv, ls = r
            self.path(ls)
            if len(self.seen) < rep:
                self.ctx.count("probe:folds-unseen")
                return
            for j, inds in enumerate(self.seen[-rep:]):
                self.partition(inds, n, cv, y, "binomial path CV")
                for k, (f, t) in enumerate(inds):
                    for i, l in enumerate(ls):
                        what = "binomial path CV: repetition %d, fold %d, penalty %d" % (j, k, i)
                        b0, b = betas[j, k, i, 0], betas[j, k, i, 1:]
                        eta = X[t] @ b + b0
                        if np.abs(eta).max() < 15:
                            ll = np.mean(half_deviance("binomial", y[t], eta))
                            self.near(fv[j, i, k, 0] / (1 + ll), ll / (1 + ll), "wrong-score", 1e-7, what + ": half deviance of the held-out rows")
                        self.stationary("binomial", X[f], y[f], np.full(len(f), 1 / len(f)), b0, b, l, alpha, True, "not-fitted-on-training-rows", what, 1e-4)
        return (lambda: self.b2.binom_glmnet_cv(X, y, alpha, lam, cv=cv, n_rep=rep, cd_kws=kw)), judge

    # ------------------------------------------------------------------ sparse canonical correlation
    def op_scca(self, op, a):
        n, p, q = max(op["n"], 20), max(op["p"], 2), 3
        nc, cv = (None, 1, 2, 3)[op["k"] % 4], min(op["cv"], 5)
        if nc == 3 and p < 3:
            nc = 2
        z = a.normal(size=(n, 2))
        X, Y = z @ a.normal(size=(2, p)) + a.normal(size=(n, p)), z @ a.normal(size=(2, q)) + a.normal(size=(n, q))
        m = self.sc.SCCA(X, Y)
        lam = np.linspace(0.4, 0.9, min(op["nl"], 4))
        Xs, Ys = (X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0)
        c = nc or 1
        diag = np.cumsum([0] + list(range(c, 1, -1)))

        def judge(_):
            inds = self.seen[0] if self.seen else self.sc.kfold_indices(n, cv)
            self.partition(inds, n, cv, None, "sparse CCA CV")
            for k, (f, t) in enumerate(inds):
                xt, yt = [(v[t] - v[t].mean(0)) / v[t].std(0) for v in (Xs, Ys)]
                for i in range(len(lam)):
                    u, v = xt @ m.Wxcv[i, k], yt @ m.Wycv[i, k]
                    R = lower(((u - u.mean(0)) / u.std(0)).T @ ((v - v.mean(0)) / v.std(0)) / len(t))
                    fin = np.isfinite(R)
                    self.near(m.rt[i, k][fin], R[fin], "wrong-score", 1e-7, "sparse CCA: held-out correlations of fold %d, penalty %d" % (k, i))
            sc = m.rt.mean(axis=1)[:, diag].mean(axis=1)
            if np.all(np.isfinite(sc)):
                i = int(m.lmax)
                self.ok(sc[i] >= sc.max() - 1e-12, "wrong-choice", "sparse CCA: penalty %d has mean held-out correlation %.9g, the largest is %.9g" % (i, sc[i], sc.max()))
                self.near(m.lam, lam[i], "wrong-choice", 1e-12, "penalty chosen")
            k = op["s"] % cv
            t = inds[k][1]
            X2, Y2 = Xs.copy(), Ys.copy()
            X2[t], Y2[t] = a.normal(size=(len(t), p)) * 3 + 1, a.normal(size=(len(t), q))
            W2 = m.crossval(cv, nc, lam, X=X2, Y=Y2)
            self.near(W2[0][:, k], m.Wxcv[:, k], "not-fitted-on-training-rows", 1e-10, "sparse CCA: weights of fold %d with its held-out rows replaced" % k)
            self.near(W2[1][:, k], m.Wycv[:, k], "not-fitted-on-training-rows", 1e-10, "sparse CCA: weights of fold %d with its held-out rows replaced" % k)
        return (lambda: m.fit(cv, nc, cv_kws=dict(lambdas=lam))), judge


WORLD = W
