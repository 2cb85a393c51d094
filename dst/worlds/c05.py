"""C05: bootstrap and jackknife replicates against refits of the rows the simulator dealt."""
import warnings
import numpy as np
from scipy import optimize, special, stats
from ..core import World
from .. import faults, rngs

KINDS = ["ols2", "ols2_jit", "glm2", "clm2", "ols1", "glm1", "clm1", "nb1", "lm", "lm_jit", "lmglm"]
KW = [4, 2, 8, 4, 2, 4, 1, 1, 2, 1, 2]
FAMS = ["gaussian", "poisson", "binomial", "probit", "gamma", "invgauss", "negbin"]
SCALES = {"gaussian": ("M", "NR"), "gamma": ("M", "NR"), "negbin": ("NR",), "invgauss": ("M",)}


class TqdmStub:
    def __init__(self, *a, **k):
        self.n = 0

    def update(self, k=1):
        self.n += k

    def close(self):
        pass

    def set_description(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def gen_data(c):
    g = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = np.c_[np.ones(n), g.normal(size=(n, p))]
    if c.get("dupcol"):
        X[:, -1] = np.round(X[:, -1])
    b = np.r_[0.3, g.uniform(-0.5, 0.5, size=p)]
    eta = X @ b
    f = c["fam"]
    if f == "gaussian":
        y = eta + g.normal(size=n)
    elif f == "poisson":
        y = g.poisson(np.exp(eta + 0.7)).astype(float)
    elif f == "negbin":
        y = g.poisson(np.exp(eta + 1.0) * g.gamma(1.5, 1 / 1.5, size=n)).astype(float)
    elif f in ("binomial", "probit"):
        y = (g.uniform(size=n) < special.expit(eta)).astype(float)
    elif f == "gamma":
        y = g.gamma(3.0, np.exp(eta) / 3.0) + 1e-3
    elif f == "invgauss":
        y = g.wald(np.exp(eta), 4.0) + 1e-3
    elif f == "ordinal":
        z = X[:, 1:] @ b[1:] + g.logistic(size=n)
        q = np.quantile(z, np.linspace(0, 1, c["ncat"] + 1)[1:-1])
        y = np.searchsorted(q, z).astype(float)
    w = np.round(g.uniform(0.4, 2.5, size=n), 3) if c["weights"] else np.ones(n)
    return X, y, w


# -------------------------------------------------- independent criteria (minus log-likelihood)

def nll(fam, scale, link="logit"):
    def f(t, X, y, w):
        b = t[:-1] if scale == "NR" else t
        eta = X @ b
        if fam == "gaussian":
            if scale == "NR":
                return np.sum(0.5 * w * (y - eta)**2 / np.exp(t[-1]) + 0.5 * t[-1])
            return 0.5 * np.sum(w * (y - eta)**2)
        if fam == "poisson":
            return np.sum(w * (np.exp(eta) - y * eta))
        if fam == "binomial":
            return np.sum(w * (np.logaddexp(0, eta) - y * eta))
        if fam == "probit":
            return -np.sum(w * np.where(y > 0.5, special.log_ndtr(eta), special.log_ndtr(-eta)))
        if fam == "gamma":
            if scale == "NR":
                a = np.exp(-t[-1])
                return np.sum(-a * np.log(a) - a * np.log(y) + a * eta + a * y * np.exp(-eta) + special.gammaln(a) + np.log(y))
            return np.sum(w * (y * np.exp(-eta) + eta))
        if fam == "invgauss":
            return np.sum(w * (y - np.exp(eta))**2 / (2 * np.exp(2 * eta) * y))
        if fam == "negbin":
            k = np.exp(t[-1])
            a, mu = 1 / k, np.exp(eta)
            return np.sum(w * ((y + a) * np.log1p(k * mu) - y * (eta + t[-1]) - special.gammaln(y + a) + special.gammaln(a)))
        raise ValueError(fam)
    return f


def nll_ord(ncat, link):
    cdf = dict(logit=special.expit, probit=special.ndtr)[link]

    def f(t, X, y, w):
        tau = np.r_[-np.inf, t[:ncat - 1], np.inf]
        eta = X @ t[ncat - 1:]
        k = y.astype(int)
        up, lo = tau[k + 1] - eta, tau[k] - eta
        flip = lo > 0                                       # accurate upper tail
        pr = np.where(flip, cdf(-lo) - cdf(-up), cdf(up) - cdf(lo))
        return -np.sum(w * np.log(np.maximum(pr, 1e-300)))
    return f


def grad_hess(f, t):
    p = len(t)
    h = 1e-5 * np.maximum(1.0, np.abs(t))
    H = np.zeros((p, p))

    def grad(x):
        g = np.zeros(p)
        for j in range(p):
            e = np.zeros(p)
            e[j] = h[j]
            g[j] = (8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * h[j])
        return g
    g = grad(t)
    h2 = 2e-4 * np.maximum(1.0, np.abs(t))
    for j in range(p):
        e = np.zeros(p)
        e[j] = h2[j]
        H[:, j] = (grad(t + e) - grad(t - e)) / (2 * h2[j])
    return g, 0.5 * (H + H.T)


class W(World):
    prop = "C05"
    technique = ("seeded simulation of resampling runs: the simulator deals every resampling index (degenerate, repeated, identity draws "
                 "included), fails the k-th draw or interrupts any executed line; refinement of each replicate against an independent "
                 "criterion on exactly the rows dealt")
    rule = ("a run builds one model on generated data and executes 1-3 bootstrap / jackknife calls under dealt indices and injected "
            "faults; non-trivial: at least one replicate was compared with the reference optimum of its rows")
    states_measure = "distinct (model kind, family, scale, call, draw modes, fault kind, outcome) tuples"
    real = ("pystatsm.pyglm2.ols/glm/clm", "pystatsm.pyglm.ols/glm/clm/nb2/linear_model", "scipy.optimize trust-constr")
    stub = ("random index source (dealt by the simulator)", "tqdm progress bar", "numba prange loop of bootstrap_chol run as Python source")
    assumptions = ("replicates of resamples whose criterion has no well-conditioned optimum are not judged",)
    quick_runs, thorough_runs = 2000, 60000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        import tqdm
        tqdm.tqdm = TqdmStub
        import numba
        import pandas as pd
        import pystatsm.pyglm2.ols as ols2
        import pystatsm.pyglm2.glm as glm2
        import pystatsm.pyglm2.clm as clm2
        import pystatsm.pyglm2.families as fam2
        import pystatsm.pyglm2.links as lnk2
        import pystatsm.pyglm.ols as ols1
        import pystatsm.pyglm.glm as glm1
        import pystatsm.pyglm.clm as clm1
        import pystatsm.pyglm.nb2 as nb1
        import pystatsm.pyglm.families as fam1
        import pystatsm.pyglm.links as lnk1
        import pystatsm.pyglm.linear_model as lm
        self.m = dict(ols2=ols2, glm2=glm2, clm2=clm2, fam2=fam2, lnk2=lnk2, ols1=ols1, glm1=glm1, clm1=clm1, nb1=nb1, fam1=fam1,
                      lnk1=lnk1, lm=lm)
        self.pd = pd
        for C in (ols2.OLS, lm.LinearModel):
            d = C.__dict__.get("bootstrap_chol")
            d = getattr(d, "__func__", d)
            if hasattr(d, "py_func"):
                C.bootstrap_chol = staticmethod(d.py_func)
        import random
        c = self.gen(random.Random(3), "quick")["config"]
        c.update(kind="glm2", fam="poisson", scale="M", weights=False, n=12, p=1)
        m, *_ = self.build(c)
        m.fit()

    def gen(self, r, tier):
        kind = r.choices(KINDS, KW)[0]
        fam = "gaussian"
        if kind in ("glm2", "glm1", "lmglm"):
            fam = r.choice(FAMS)
        elif kind == "nb1":
            fam = "negbin"
        elif kind in ("clm1", "clm2"):
            fam = "ordinal"
        scale = r.choice(SCALES.get(fam, ("fixed",)))
        if kind in ("nb1",):
            scale = "NR"
        if kind == "lmglm" and scale == "M":
            fam, scale = ("gaussian", "NR") if fam == "gaussian" else ("poisson", "fixed")
        if kind == "glm1" and fam == "negbin":
            fam, scale = "poisson", "fixed"
        lin = kind in ("ols2", "ols2_jit", "ols1", "lm", "lm_jit")
        weights = (not lin) and kind not in ("nb1", "clm1") and r.random() < 0.5 and scale != "NR"
        c = dict(kind=kind, fam=fam, scale=scale, weights=weights, n=r.randrange(6, 30) if lin else r.randrange(12, 32),
                 p=r.choice([1, 1, 2, 3]) if lin else r.choice([1, 1, 2]), seed=r.randrange(1 << 30), ncat=r.choice([2, 3, 3, 4]),
                 link=r.choice(["logit", "probit"]), dupcol=lin and r.random() < 0.4, meth=r.choice(["ee", "other"] if scale == "M" else ["sp", "ee", "other"]))
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ops.append(self.gen_op(r, c, tier))
        if any(o["op"] == "jack" for o in ops) and kind != "ols1":
            c["n"] = min(c["n"], 12 + c["seed"] % 5)
        return dict(config=c, ops=ops)

    def gen_op(self, r, c, tier):
        kind = c["kind"]
        call = "boot"
        if kind in ("glm2", "lmglm") and r.random() < 0.45:
            call = r.choice(["jack", "jack1"]) if c["scale"] != "NR" else "jack"
        if kind == "clm2" and r.random() < 0.4:
            call = "jack"
        if kind == "ols1" and r.random() < 0.3:
            call = "jack"
        pool = rngs.MODES_CHOICE
        modes = [r.choice(pool) if r.random() < 0.5 else "iid" for _ in range(r.choice([1, 2, 3, 5]))]
        if not set(modes) & {"iid", "identity"}:
            modes.append("iid")          # a singular resample is drawn again: some draw has to be usable
        if kind.endswith("_jit"):
            modes = [m if m not in ("same",) else "iid" for m in modes]
        op = dict(op=call, n=r.choice([0, 1, 2, 2, 3, 5]) if kind not in ("nb1", "clm1") else r.choice([2, 3]), seed=r.randrange(1 << 30),
                  modes=modes, verbose=r.random() < 0.3, rng=r.random() < 0.6, info=r.random() < 0.4, ssq=r.random() < 0.4)
        if kind in ("ols1", "glm1"):
            op["n"] = max(op["n"], 2)
        x = r.random()
        if x < 0.15:
            op["drawfault"] = dict(kind=r.choice(["interrupt", "memory", "runtime"]), k=r.randrange(1, 5))
        elif x < 0.4:
            op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 12 if kind not in ("ols1", "ols2", "lm") else 8)))
        return op

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("weights", False), ("p", 1), ("n", 12), ("dupcol", False)):
            if c[k] != v:
                yield dict(sc, config=dict(c, **{k: v}))
        for i, op in enumerate(sc["ops"]):
            for k, v in (("n", 1), ("modes", ["iid"]), ("verbose", False), ("info", False), ("ssq", False)):
                if op[k] != v and not (k == "n" and c["kind"] in ("nb1", "clm1", "ols1", "glm1")):
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])

    # ------------------------------------------------------------------ building
    def build(self, c, data=None):
        m, pd = self.m, self.pd
        X, y, w = gen_data(c) if data is None else data
        kind = c["kind"]
        df = pd.DataFrame(X[:, 1:], columns=["x%d" % i for i in range(1, c["p"] + 1)])
        df["y"] = y
        df.index = np.arange(len(y)) * 2 + 5
        rhs = "+".join("x%d" % i for i in range(1, c["p"] + 1))
        crit = None
        if kind in ("ols2", "ols2_jit"):
            mod = m["ols2"].OLS("y~" + rhs, df) if c["seed"] % 2 else m["ols2"].OLS(X=X.copy(), y=y.copy())
        elif kind in ("lm", "lm_jit"):
            mod = m["lm"].LinearModel("y~" + rhs, df) if c["seed"] % 2 else m["lm"].LinearModel(X=X.copy(), y=y.copy())
        elif kind == "ols1":
            mod = m["ols1"].OLS("y~" + rhs, df) if c["seed"] % 2 else m["ols1"].OLS(X=X.copy(), y=y.copy())
        elif kind in ("glm2", "lmglm", "glm1"):
            fm, lk = (m["fam2"], m["lnk2"]) if kind == "glm2" else (m["fam1"], m["lnk1"])
            cls, link = dict(gaussian=(fm.Gaussian, lk.IdentityLink), poisson=(fm.Poisson, lk.LogLink),
                             binomial=(fm.Binomial, lk.LogitLink), probit=(fm.Binomial, lk.ProbitLink),
                             gamma=(fm.Gamma, lk.LogLink), invgauss=(fm.InverseGaussian, lk.LogLink),
                             negbin=(fm.NegativeBinomial, lk.LogLink))[c["fam"]]
            crit = nll(c["fam"], c["scale"])
            sc = c["scale"] if c["scale"] != "fixed" else "M"
            if kind == "glm2":
                kw = dict(weights=w.copy()) if c["weights"] else {}
                mod = m["glm2"].GLM("y~" + rhs, df, family=cls(link=link), scale_estimator=sc, **kw)
            elif kind == "lmglm":
                kw = dict(weights=w.copy()) if c["weights"] else {}
                mod = m["lm"].GLM("y~" + rhs, df, family=cls(link=link), scale_estimator=sc, **kw)
            else:
                fam = cls(link=link, weights=w.copy()) if c["weights"] else cls(link=link)
                mod = m["glm1"].GLM(formula="y~" + rhs, data=df, fam=fam, scale_estimator=sc)
        elif kind == "clm2":
            lk = dict(logit=m["lnk2"].LogitLink, probit=m["lnk2"].ProbitLink)[c["link"]]
            kw = dict(weights=w.copy()) if c["weights"] else {}
            mod = m["clm2"].CLM("y~" + rhs, df, link=lk, **kw)
            crit = nll_ord(c["ncat"], c["link"])
            X = X[:, 1:]
        elif kind == "clm1":
            lk = dict(logit=m["lnk1"].LogitLink, probit=m["lnk1"].ProbitLink)[c["link"]]
            mod = m["clm1"].CLM("y~%s-1" % rhs, df, link=lk)
            crit = nll_ord(c["ncat"], c["link"])
            X = X[:, 1:]
        elif kind == "nb1":
            mod = m["nb1"].NegativeBinomial("y~" + rhs, df)
            crit = nll("negbin", "NR")
        return mod, X, y, w, crit, df

    def snapshot(self, mod):
        out = {}
        for k, v in vars(mod).items():
            if isinstance(v, np.ndarray):
                out[k] = v.copy()
            elif k == "model_data":
                for i, a in enumerate(v.data):
                    out["model_data.%d" % i] = np.array(a, copy=True)
                out["model_data.w"] = np.array(v.weights, dtype=float, copy=True)
            elif k in ("res",) and hasattr(v, "columns"):
                for col in v.columns:
                    if col in ("SE", "beta", "coef", "params", "param", "t", "p"):
                        out["res." + col] = np.array(v[col], dtype=float)
            elif k == "f" and hasattr(v, "weights"):
                out["f.weights"] = np.array(v.weights, dtype=float, copy=True)
        return out

    # ------------------------------------------------------------------ oracle
    def judge(self, ctx, c, crit, X, y, w, ii, b, what):
        """b must be the optimum of the criterion on rows ii"""
        Xi, yi, wi = X[ii], y[ii], w[ii]
        if c["fam"] == "ordinal" and len(np.unique(yi)) < c["ncat"]:
            ctx.count("probe:degenerate")
            return
        f = lambda t: crit(t, Xi, yi, wi)
        if not np.all(np.isfinite(b)):                     # a Newton iteration on a separable resample may diverge
            ctx.check(c["kind"] == "glm1" or self.solvable(f, c, b, Xi, yi, wi) is None, "replicate-not-finite", lambda: "%s: %s" % (what, b))
            ctx.count("probe:degenerate")
            return
        with np.errstate(all="ignore"):
            g, H = grad_hess(f, b)
        ok, d, se = self.newton(g, H)
        if not ok:
            if np.max(np.abs(g)) < 1e-4 or self.solvable(f, c, b, Xi, yi, wi) is None:
                ctx.count("probe:degenerate")
                return
            if self.refit_stuck(c, crit, X, y, w, ii):
                ctx.count("probe:optimizer-stuck")
                return
            ctx.fail("replicate-wrong", "%s: not near an optimum of its rows: %s, gradient %s" % (what, b, g))
        lim = 0.02 if c["kind"] in ("nb1", "clm1") else 0.005
        ratio = np.max(np.abs(d) / se)
        if ratio > lim:
            s = self.solvable(f, c, b, Xi, yi, wi)
            if s is None or np.max(np.abs(s - b) / se) < 3 * lim:
                ctx.count("probe:degenerate")
                return
            if self.refit_stuck(c, crit, X, y, w, ii):
                ctx.count("probe:optimizer-stuck")
                return
            ctx.fail("replicate-wrong", "%s: %s, but the optimum of the rows dealt is %s (Newton step %.3g standard errors)" % (what, b, s, ratio))
        ctx.count("probe:replicates")
        ctx.steps += 1

    def refit_stuck(self, c, crit, X, y, w, ii):
        """a model built on exactly these rows, started where replicates start, does not reach the optimum either"""
        Xf = X if c["fam"] != "ordinal" else np.c_[np.ones(len(y)), X]
        kind = c["kind"]
        try:
            m = self.build(c, (Xf[ii], y[ii], w[ii]))[0]
            start = np.array(self.start, float)
            if kind in ("glm2", "lmglm"):
                b = m._optimize(t_init=np.array(self.mod.params_init, float)).x
            elif kind == "clm2":
                b = m._fit(params=self.m["clm2"].OrderedTransform._fwd(start, m.q))[0]
            elif kind == "clm1":
                b = m._optimize(start, (m.B1, m.B2), dict(options=dict(verbose=0, gtol=1e-4, xtol=1e-4))).x
            elif kind == "nb1":
                b = optimize.minimize(m.loglike, start, method="trust-constr", jac=m.gradient, hess=m.hessian,
                                      options=dict(gtol=1e-4, xtol=1e-4)).x
            else:
                b = m._fit_optim(t_init=start).x if self.meth == "sp" else \
                    (m._fit_estimating_equations(theta_init=start)[0] if self.meth == "ee" else m._bootfit(start)[0])
        except Exception:
            return True
        if not np.all(np.isfinite(b)):
            return True
        ok, d, se = self.newton(*grad_hess(lambda t: crit(t, X[ii], y[ii], w[ii]), b))
        return not ok or np.max(np.abs(d) / se) > (0.02 if kind in ("nb1", "clm1") else 0.005)

    def newton(self, g, H):
        if not (np.all(np.isfinite(g)) and np.all(np.isfinite(H))):
            return False, None, None
        s = np.sqrt(np.abs(np.diag(H))) + 1e-12
        ev = np.linalg.eigvalsh(H / np.outer(s, s))
        if ev[0] < 1e-5:
            return False, None, None
        return True, np.linalg.solve(H, g), np.sqrt(np.diag(np.linalg.inv(H)))

    def solvable(self, f, c, b, X, y, w):
        """the optimum the independent optimiser reaches from the model's neutral start, or None if there is
        no well-conditioned one"""
        starts = [np.where(np.isfinite(b), b, 0.0)]
        if c["fam"] == "ordinal":
            q = c["ncat"] - 1
            starts.append(np.r_[stats.norm.ppf(np.arange(1, q + 1) / (q + 1.0)), np.zeros(X.shape[1])])
        else:
            starts.append(np.zeros(len(b)))
        for t0 in starts[::-1]:
            t = t0
            try:
                for _ in range(4):
                    t = optimize.minimize(f, t, method="Nelder-Mead", options=dict(maxiter=4000, maxfev=4000, xatol=1e-10, fatol=1e-12)).x
                    g, H = grad_hess(f, t)
                    ok, d, se = self.newton(g, H)
                    if ok and np.max(np.abs(d) / se) < 1e-3:
                        if np.max(np.abs(X @ t[-X.shape[1]:] if c["fam"] == "ordinal" else X @ t[:X.shape[1]])) > 12:
                            return None
                        return t - d
            except Exception:
                continue
        return None

    def ls(self, X, y):
        """least squares of rows, with the diagnosis of the Gram matrix"""
        s = np.linalg.svd(X, compute_uv=False)
        rank = "singular" if s[-1] < 1e-9 * s[0] else ("ill" if s[-1] < 1e-4 * s[0] else "ok")
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        r = y - X @ b
        return rank, b, r @ r

    def judge_ols(self, ctx, c, X, y, draws, boot, lost, kind):
        """every row of boot is the least-squares fit of one draw, in order; only draws with a singular
        Gram matrix (or hit by the fault) may be passed over"""
        j = 0
        for i, row in enumerate(boot):
            while True:
                ctx.check(j < len(draws), "replicate-without-draw", lambda: "replicate %d of %d has no draw left (%d draws)" % (i, len(boot), len(draws)))
                ii = draws[j]
                j += 1
                rank, b, sse = self.ls(X[ii], y[ii])
                if kind == "ols1":
                    n, p = X.shape
                    good = np.allclose(row[0], b, rtol=1e-6, atol=1e-7)
                    if good:
                        Gi = np.linalg.inv(X[ii].T @ X[ii]) if rank == "ok" else None
                        if Gi is not None and sse > 1e-8 * (y @ y):
                            ctx.close(row[1], np.sqrt(np.diag(Gi) * sse / (n - p)), "replicate-se-wrong", 1e-5, 1e-6, "standard errors of replicate %d" % i)
                        if row[2] is not None and rank == "ok":
                            yh = X[ii] @ b
                            ctx.close(row[2][:3], [sse, np.sum((yh - y[ii].mean())**2), np.sum((y[ii] - y[ii].mean())**2)],
                                      "replicate-ssq-wrong", 1e-5, 1e-6, "sums of squares of replicate %d" % i)
                else:
                    good = np.allclose(row[:-1], b, rtol=1e-6, atol=1e-7) and abs(row[-1] - sse) < 1e-6 * (1 + y @ y)
                if good and rank == "ok":
                    ctx.count("probe:replicates")
                    ctx.steps += 1
                    break
                if rank == "ill":
                    ctx.count("probe:degenerate")
                    break
                if rank == "singular":
                    ctx.count("probe:singular-draw")
                    # rounding may let the Cholesky of a singular Gram matrix through
                    if j < len(draws) and self.matches(row, X, y, draws[j], kind):
                        continue
                    if not self.later(row, X, y, draws[j:], kind):
                        break
                    continue
                if lost > 0:
                    lost -= 1
                    continue
                ctx.fail("replicate-wrong", "replicate %d is %s, but its draw gives %s (sse %.6g)" % (i, row, b, sse))
        ctx.check(len(draws) - j <= lost, "draw-unused", lambda: "%d draws were dealt but only %d replicates came from them" % (len(draws), j))

    def matches(self, row, X, y, ii, kind):
        b = self.ls(X[ii], y[ii])[1]
        return np.allclose(row[0] if kind == "ols1" else row[:-1], b, rtol=1e-6, atol=1e-7)

    def later(self, row, X, y, draws, kind):
        return any(self.matches(row, X, y, d, kind) for d in draws)

    # ------------------------------------------------------------------ run
    def call(self, mod, kind, op, dealer):
        rng = rngs.SimGenerator(dealer) if op["rng"] else None
        n = op["n"]
        if op["op"] == "jack1":
            return mod._jacknife("one-step", verbose=op["verbose"])
        if op["op"] == "jack":
            if kind == "ols1":
                mod._compute_jackknife_coefs()
                return mod.beta_jackknife
            return mod._jacknife(verbose=op["verbose"])
        if kind in ("ols2", "lm"):
            return mod._bootstrap(n, verbose=op["verbose"])
        if kind in ("ols2_jit", "lm_jit"):
            return mod._bootstrap_jitted(n)
        if kind == "glm2":
            return mod._bootstrap(n, verbose=op["verbose"], return_info=op["info"], rng=rng)
        if kind == "clm2":
            return mod._bootstrap(n, verbose=op["verbose"], return_info=op["info"], rng=rng)
        if kind == "lmglm":
            return mod._bootstrap(n, verbose=op["verbose"], rng=rng)
        if kind == "ols1":
            return mod.bootstrap(n, ssq=op["ssq"])
        if kind == "glm1":
            return mod.bootstrap(n, method=self.meth)
        return mod.bootstrap(n)

    def execute(self, sc, ctx):
        c = sc["config"]
        kind = c["kind"]
        mod, X, y, w, crit, df = self.build(c)
        self.meth = c["meth"] if c["scale"] != "NR" else "sp"
        dfsnap = df.copy(deep=True)
        try:
            (mod._fit if kind in ("lm", "lm_jit") else mod.fit)()
        except np.linalg.LinAlgError:
            ctx.event("singular")
            return
        n = len(y)
        base = self.snapshot(mod)
        self.mod, self.start = mod, np.array(getattr(mod, "params", mod.beta), float)
        if crit is not None:
            b0 = np.asarray(mod.params, float)
            g, H = grad_hess(lambda t: crit(t, X, y, w), b0)
            ok, d, se = self.newton(g, H)
            if not ok or np.max(np.abs(d) / se) > 0.01:
                ctx.event("no-fit")          # the full data has no usable optimum (separation etc.)
                ctx.count("probe:no-optimum")
                return
        done_boot = False
        for op in sc["ops"]:
            if kind in ("ols1", "glm1") and op["op"] == "boot":
                if done_boot:
                    mod.fit()                # the result table of these models holds one bootstrap at a time
                    base = self.snapshot(mod)
                done_boot = True
            df_ = op.get("drawfault")
            exc = None
            if df_:
                exc = {"interrupt": faults.exc_type("interrupt"), "memory": faults.exc_type("memory")}.get(df_["kind"], faults.exc_type("memory"))
            dealer = rngs.Dealer(op["seed"], op["modes"], df_["k"] if df_ else None, exc)
            f = op.get("fault")
            ctx.count("op:%s-%s" % (kind, op["op"]))
            out, err, lf = None, None, None
            try:
                with rngs.patched_numpy(dealer):
                    if f:
                        with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                            out = self.call(mod, kind, op, dealer)
                    else:
                        out = self.call(mod, kind, op, dealer)
            except BaseException as e:
                if not faults.injected(e) and not isinstance(e, np.linalg.LinAlgError):
                    raise
                err = e
            fired = bool(lf and lf.fired) or dealer.failed
            if fired:
                ctx.count("fault:" + (f["kind"] if f else "draw-" + df_["kind"]))
            ctx.state(kind, c["fam"], c["scale"], op["op"], ",".join(sorted(set(op["modes"]))), (f or df_ or {}).get("kind", ""), type(err).__name__)
            ctx.event(kind, op["op"], type(err).__name__, len(dealer.draws))
            if err is None and kind in ("ols1", "glm1", "nb1", "clm1") and op["op"] == "boot":
                out = self.stored(ctx, mod, kind, op)
            if err is None and out is not None:
                self.check_out(ctx, c, mod, op, out, dealer, X, y, w, crit, fired, base)
            elif err is not None and not faults.injected(err):
                # a singular resample may end the run with the linear algebra error it caused
                ctx.count("probe:singular-stop")
            self.unchanged(ctx, c, mod, base, op, err)
            ctx.check(df.equals(dfsnap), "caller-data-changed", "the data frame passed in was changed")
            if kind in ("ols1", "glm1") and fired and "SE_boot" in mod.res.columns and err is not None:
                mod.fit()
                base = self.snapshot(mod)

    def table(self, ctx, res, est, df):
        """the bootstrap columns of the results table are the ratio to, and the tail of, the bootstrap standard error"""
        se, t = res["SE_boot"].to_numpy(float), res["t_boot"].to_numpy(float)
        b, ok = res[est].to_numpy(float), se > 1e-9
        ctx.close(t[ok], b[ok] / se[ok], "boot-table-wrong", 1e-8, 1e-10, "t_boot")
        if df:
            import scipy.stats as st
            ctx.close(res["p_boot"].to_numpy(float)[ok], 2 * st.t(df).sf(np.abs(t[ok])), "boot-table-wrong", 1e-8, 1e-12, "p_boot")

    def stored(self, ctx, mod, kind, op):
        if kind == "ols1":
            b, se, ssq = mod.beta_samples, mod.beta_se_samples, mod.ssq_samples
            ctx.close(mod.res["SE_boot"], b.std(axis=0), "se-boot-wrong", 1e-8, 1e-10, "SE_boot")
            self.table(ctx, mod.res, "beta", mod.n - mod.p)
            ssq = None if ssq is None else np.asarray(ssq)
            return [(b[i], se[i], None if ssq is None else ssq[i]) for i in range(len(b))]
        if kind == "glm1":
            ctx.close(mod.res["SE_boot"], mod.theta_samples.std(axis=0), "se-boot-wrong", 1e-8, 1e-10, "SE_boot")
            self.table(ctx, mod.res, "params", None)
            return mod.theta_samples
        s = mod.beta_samples
        ctx.close(mod.boot_res["std"], s.std(axis=0, ddof=1), "se-boot-wrong", 1e-8, 1e-10, "bootstrap standard deviation")
        ctx.close(mod.boot_res["mean"], s.mean(axis=0), "se-boot-wrong", 1e-8, 1e-10, "bootstrap mean")
        return s

    def check_out(self, ctx, c, mod, op, out, dealer, X, y, w, crit, fired, base):
        kind, n = c["kind"], len(y)
        if op["op"] == "jack1":
            out = np.asarray(out)
            self.one_step(ctx, c, mod, X, y, w, out)
            return
        if op["op"] == "jack":
            out = np.asarray(out)
            ctx.check(out.shape[0] == n, "wrong-count", lambda: "jackknife returned %d rows for %d observations" % (out.shape[0], n))
            for i in range(n):
                ii = np.delete(np.arange(n), i)
                if kind == "ols1":
                    rank, b, sse = self.ls(X[ii], y[ii])
                    if rank == "ok":
                        ctx.close(out[i], b, "replicate-wrong", 1e-6, 1e-7, "jackknife replicate %d" % i)
                        ctx.steps += 1
                elif i % 3 == op["seed"] % 3 or n < 16:
                    self.judge(ctx, c, crit, X, y, w, ii, out[i], "jackknife replicate %d" % i)
            return
        boot = out[0] if isinstance(out, tuple) else out
        info = out[1] if isinstance(out, tuple) else None
        draws = dealer.dealt("choice", n)
        if kind in ("ols2", "ols2_jit", "lm", "lm_jit", "ols1"):
            ctx.check(len(boot) == op["n"], "wrong-count", lambda: "%d replicates for %d asked" % (len(boot), op["n"]))
            self.judge_ols(ctx, c, X, y, draws, boot, 1 if fired else 0, kind)
            return
        boot = np.asarray(boot)
        ctx.check(boot.shape[0] == op["n"], "wrong-count", lambda: "%d replicates for %d asked" % (boot.shape[0], op["n"]))
        if kind in ("nb1", "clm1"):
            draws = draws[1:] if len(draws) == op["n"] + 1 else draws      # one index vector is drawn and dropped before the loop
        ctx.check(len(draws) == op["n"] or fired, "draws-vs-replicates", lambda: "%d index draws for %d replicates" % (len(draws), op["n"]))
        if info is not None:
            ctx.check(len(info) == op["n"], "wrong-count", lambda: "%d info rows for %d replicates" % (len(info), op["n"]))
        for i in range(min(len(draws), len(boot))):
            self.judge(ctx, c, crit, X, y, w, draws[i], boot[i], "bootstrap replicate %d" % i)
            if info is not None and c["fam"] != "ordinal" and bool(info["success"].iloc[i]):
                pass

    def one_step(self, ctx, c, mod, X, y, w, out):
        """one Fisher scoring step from the estimate with the observation left out"""
        b = np.asarray(mod.params, float)
        eta = X @ b
        fam = c["fam"]
        if fam == "gaussian":
            mu, d, v = eta, np.ones_like(eta), np.ones_like(eta)
        elif fam in ("poisson", "gamma", "invgauss"):
            mu = np.exp(eta)
            d, v = mu, dict(poisson=mu, gamma=mu**2, invgauss=mu**3)[fam]
        elif fam == "binomial":
            mu = special.expit(eta)
            d = v = mu * (1 - mu)
        elif fam == "probit":
            mu, d = special.ndtr(eta), stats.norm.pdf(eta)
            v = mu * (1 - mu)
        else:
            return
        W_ = w * d**2 / v
        z = (y - mu) / d
        want = np.zeros((len(y), len(b)))
        for i in range(len(y)):
            ii = np.delete(np.arange(len(y)), i)
            G = X[ii].T @ (W_[ii, None] * X[ii])
            if np.linalg.cond(G) > 1e8:
                return
            want[i] = b + np.linalg.solve(G, X[ii].T @ (W_[ii] * z[ii]))
        # the estimate itself is only stationary up to the optimiser's tolerance
        ctx.close(out, want, "one-step-wrong", 1e-3, 1e-4, "one-step jackknife replicates")
        ctx.steps += 1

    def unchanged(self, ctx, c, mod, base, op, err):
        kind = c["kind"]
        now = self.snapshot(mod)
        refits = kind in ("nb1", "clm1") and op["op"] == "boot"
        for k, v in base.items():
            if kind in ("ols1", "glm1") and k.startswith(("beta_samples", "theta_samples", "beta_se_samples", "beta_jackknife")):
                continue
            if k in ("beta_samples",):
                continue
            ctx.check(k in now and now[k].shape == v.shape, "model-changed", lambda: "%s is %s after %s (outcome %s)"
                      % (k, "missing" if k not in now else now[k].shape, op["op"], type(err).__name__))
            if refits and (k.startswith(("res.", "H", "Vcov", "SE", "se_", "params", "beta", "theta", "hess")) or k in ("yhat", "dev", "ssr", "chi2")):
                if k in ("params", "beta"):
                    ctx.close(now[k], v, "model-changed", 1e-2, 1e-2, k)
                continue
            ctx.check(np.array_equal(now[k], v, equal_nan=v.dtype.kind == "f"), "model-changed",
                      lambda: "%s was changed by %s (outcome %s)" % (k, op["op"], type(err).__name__))


WORLD = W
