"""C18: additive models: histories of evaluations on one object, some failing or interrupted, against a dense penalised likelihood."""
import copy
import math
import warnings
import numpy as np
import pandas as pd
import scipy.special as ss
from scipy.interpolate import CubicSpline, BSpline
from ..core import World
from .. import faults

LOG2PI = math.log(2 * math.pi)
METHODS = dict(gam=["reml", "gradient", "hessian", "pirls", "grad_beta_rho", "hess_beta_rho", "dhess_beta_rho", "fit", "comps"],
               gam2=["reml", "gradient", "hessian", "pirls", "grad_beta_rho", "fit", "comps"],
               gauls=["reml", "gradient", "hessian", "beta_rho", "f_grad_hess", "grad_beta_rho", "hess_beta_rho", "likelihood", "fit", "comps"])
CS = 1e-20


def basis(kind, knots, x, nu=0):
    if kind == "cr":
        return CubicSpline(knots, np.eye(len(knots)), bc_type="natural")(x, nu)
    if kind == "cc":
        I = np.eye(len(knots) - 1)
        return CubicSpline(knots, np.vstack([I, I[:1]]), bc_type="periodic")(x, nu)
    return BSpline(knots, np.eye(len(knots) - 4), 3)(x, nu)


def penalty(kind, knots):
    """integrated product of second derivatives, by a quadrature exact for it"""
    g, w = np.polynomial.legendre.leggauss(4)
    inner = knots[3:-3] if kind == "bs" else knots
    P = 0
    for a, b in zip(inner[:-1], inner[1:]):
        B = basis(kind, knots, (a + b) / 2 + g * (b - a) / 2, 2)
        P = P + (B * (w * (b - a) / 2)[:, None]).T @ B
    return P


def half(fam, y, eta):
    """half the deviance and its first two derivatives in the linear predictor (complex arguments allowed)"""
    if fam == "gaussian":
        return (y - eta) ** 2 / 2, eta - y, 1 + 0 * eta
    e = np.exp(-eta)
    if fam == "gamma":
        return y * e - 1 + eta - np.log(y), 1 - y * e, y * e
    if fam == "invgauss":
        return (y * e * e - 2 * e + 1 / y) / 2, e - y * e * e, 2 * y * e * e - e
    m = 1 / e                                                            # gaussian with log link
    return (y - m) ** 2 / 2, (m - y) * m, (2 * m - y) * m


class Term:
    def __init__(s, X0, Q, pens):
        s.X0, s.Q, s.pens = X0, Q, pens


class Predictor:
    """parametric columns and centred smooths in a basis of our own; tells how the library's coefficients map to ours"""

    def __init__(self, spec, df, smooths, Xlib):
        n = len(df)
        cols = [np.ones(n)]
        if "z" in spec["par"]:
            z = [df["z"].to_numpy()]
        else:
            z = []
        if "g" in spec["par"]:
            lev = sorted(df["g"].unique())
            cols += [(df["g"] == l).to_numpy() * 1.0 for l in lev[1:]]
        X = [np.column_stack(cols + z)]
        self.S, self.blocks, k = [], {}, X[0].shape[1]
        for t in spec["terms"]:
            x = df[t["x"]].to_numpy()
            keys = [t["x"]] if not t["by"] else ["%s_%s" % (t["x"], l) for l in sorted(df["g"].unique())]
            for i, key in enumerate(keys):
                knots = np.asarray(smooths[key]["knots"], float)
                B, P = basis(t["kind"], knots, x), penalty(t["kind"], knots)
                sc = np.abs(P).sum(0).max() / np.abs(B).sum(1).max() ** 2
                m = B.mean(0)
                N = np.linalg.svd(m[None])[2][1:].T                       # orthonormal basis of the complement of the column means
                Bn = B @ N
                if t["by"]:
                    Bn = Bn * (df["g"] == sorted(df["g"].unique())[i]).to_numpy()[:, None]
                X.append(Bn)
                q = Bn.shape[1]
                self.blocks[key] = dict(ix=np.arange(k, k + q), kind=t["kind"], knots=knots, N=N, P=N.T @ P @ N / sc)
                k += q
        self.X = np.column_stack(X)
        p = self.X.shape[1]
        for b in self.blocks.values():
            S = np.zeros((p, p))
            S[np.ix_(b["ix"], b["ix"])] = b["P"]
            self.S.append(S)
            ev = np.linalg.eigvalsh(b["P"])
            b["ev"] = ev[ev > 1e-9 * ev.max()]
        self.T = np.linalg.lstsq(self.X, Xlib, rcond=None)[0] if Xlib.shape == self.X.shape else None   # ours = T @ theirs
        self.fits = self.T is not None and np.abs(self.X @ self.T - Xlib).max() < 1e-7 * (1 + np.abs(Xlib).max())


class Dense:
    def __init__(self, c, df, model):
        self.c, self.df = c, df
        if c["cls"] == "gauls":
            self.P = [Predictor(c["m"], df, model.m.smooths, model.m.X), Predictor(c["s"], df, model.s.smooths, model.s.X)]
            w = np.ones(len(df))
            if c["weights"]:
                w = df["w"].to_numpy()
                if c["weights"] != "raw":
                    w = w * len(w) / w.sum()
            self.w = w
        else:
            self.P = [Predictor(c["m"], df, model.smooths, model.X)]
        self.y = df["y"].to_numpy()
        ps = [p.X.shape[1] for p in self.P]
        self.p, self.off = sum(ps), np.concatenate([[0], np.cumsum(ps)])
        self.S, self.r, self.ld = [], [], 0.0
        for j, p in enumerate(self.P):
            for S, b in zip(p.S, p.blocks.values()):
                F = np.zeros((self.p, self.p))
                F[self.off[j]:self.off[j + 1], self.off[j]:self.off[j + 1]] = S
                self.S.append(F)
                self.r.append(len(b["ev"]))
                self.ld += np.log(b["ev"]).sum()
        self.r = np.array(self.r, float)
        self.ns = len(self.S)
        self.fits = all(p.fits for p in self.P)
        if self.fits:
            self.T = np.zeros((self.p, self.p))
            for j, p in enumerate(self.P):
                self.T[self.off[j]:self.off[j + 1], self.off[j]:self.off[j + 1]] = p.T

    def eta(self, b):
        return [p.X @ b[self.off[j]:self.off[j + 1]] for j, p in enumerate(self.P)]

    def parts(self, eta):
        """value, gradient per predictor and second derivatives per pair of predictors, by observation"""
        y = self.y
        if self.c["cls"] != "gauls":
            v, d, h = half(self.c["fam"], y, eta[0])
            return v, [d], [[h]]
        b, w = self.c["b"], self.w
        r, s = y - eta[0], np.exp(eta[1])
        t = 1 / (s + b)
        t1, t2 = -s * t ** 2, -s * t ** 2 + 2 * s ** 2 * t ** 3
        lt, ltt = 1 / t - t * r * r, -1 / t ** 2 - r * r
        v = 0.5 * r * r * t * t - np.log(t) + LOG2PI / 2
        ms = -2 * t * r * t1
        return w * v, [-w * t * t * r, -w * lt * t1], [[w * t * t, w * ms], [w * ms, -w * (ltt * t1 ** 2 + lt * t2)]]

    def hess(self, h):
        return np.block([[a.X.T @ (h[i][j][:, None] * b.X) for j, b in enumerate(self.P)] for i, a in enumerate(self.P)])

    def pen(self, rho):
        return sum((np.exp(r) * S for r, S in zip(rho, self.S)), np.zeros((self.p, self.p)))

    def state(self, b, S):
        v, d, h = self.parts(self.eta(b))
        g = np.concatenate([p.X.T @ x for p, x in zip(self.P, d)]) + S @ b
        return v.sum() + b @ S @ b / 2, g, self.hess(h)

    def solve(self, rho, b, n=30):
        """the stationary point of the penalised criterion reached by Newton steps from b; None unless it is a minimum found"""
        S = self.pen(rho)
        for _ in range(n):
            f, g, H = self.state(b, S)
            A = H + S
            try:
                L = np.linalg.cholesky(A)
            except np.linalg.LinAlgError:
                return None
            d = np.linalg.solve(A, g)
            b = b - d
            if not np.all(np.isfinite(b)):
                return None
            if np.abs(L.T @ d).max() < 1e-11 * (1 + abs(f)) ** 0.5:
                return b
        return None

    def gap(self, rho, b):
        """distance of b to the minimum in units of the criterion, and the condition of the curvature"""
        S = self.pen(rho)
        f, g, H = self.state(b, S)
        A = H + S
        if not np.all(np.isfinite(A)):
            return np.inf, np.inf
        e = np.linalg.eigvalsh(A)
        if e[0] <= 0:
            return np.inf, np.inf
        d = 1 / np.sqrt(np.diag(A))
        return float(np.sqrt(max(g @ np.linalg.solve(A, g), 0)) / (1 + abs(f)) ** 0.5), np.linalg.cond(A * np.outer(d, d))

    def scale(self, phi):
        """minus the log likelihood of the saturated model at scale phi, and its derivative in log phi"""
        y, n, f = self.y, len(self.y), self.c.get("fam")
        if self.c["cls"] == "gam2" or f in ("gaussian", "gausslog"):
            return n / 2 * (LOG2PI + np.log(phi)), n / 2
        if f == "invgauss":
            return np.sum(LOG2PI + np.log(phi) + 3 * np.log(y)) / 2, n / 2
        v = 1 / phi
        return np.sum(ss.gammaln(v) - v * np.log(v) + v + np.log(y)), n * v * (np.log(v) - ss.digamma(v))

    def criterion(self, theta, b):
        """the criterion and its gradient at theta, with b the coefficients at theta"""
        ls = self.c["cls"] == "gauls"
        rho, phi = (theta, 1.0) if ls else (theta[:-1], np.exp(theta[-1]))
        S = self.pen(rho)
        eta = self.eta(b)
        v, d, h = self.parts(eta)
        H = self.hess(h)
        A = H + S
        pl = v.sum() + b @ S @ b / 2
        lds = self.r @ (rho - np.log(phi)) + self.ld
        ldh = np.linalg.slogdet(A)[1] - self.p * np.log(phi)
        mp = self.p - self.r.sum()
        Ai = np.linalg.inv(A)
        B1 = np.column_stack([-Ai @ (np.exp(r) * s @ b) for r, s in zip(rho, self.S)]) if self.ns else np.zeros((self.p, 0))
        g = []
        for i, (r, s) in enumerate(zip(rho, self.S)):
            e1 = self.eta(B1[:, i])
            hc = self.parts([a + 1j * CS * q for a, q in zip(eta, e1)])[2]
            dH = self.hess([[x.imag / CS if np.iscomplexobj(x) else 0 * x for x in row] for row in hc])
            lam = np.exp(r)
            g.append((b @ s @ b * lam / phi + np.trace(Ai @ (lam * s + dH)) - self.r[i]) / 2)
        if ls:
            return pl - lds / 2 + ldh / 2 - mp * LOG2PI / 2, np.array(g), B1, A, H
        sv, sd = self.scale(phi)
        g.append((-2 * pl / phi + 2 * sd - mp) / 2)
        return pl / phi + (ldh - lds) / 2 + sv, np.array(g), B1, A, H

    def fd(self, rho, b, f):
        """derivative of f(rho, b(rho)) in rho by a five-point rule, with b(rho) followed from b; None if it cannot be followed"""
        out = []
        for i in range(len(rho)):
            h, e = 2e-3, np.zeros(len(rho))
            v = {}
            for k in (-2, -1, 1, 2):
                e[i] = k * h
                r = rho + e
                bb = self.solve(r[:self.ns], b)
                if bb is None:
                    return None
                v[k] = f(r, bb)
            a, c = (v[1] - v[-1]) / (2 * h), (v[2] - v[-2]) / (4 * h)
            if not np.abs(a - c).max() < 1e-2 * (1e-3 + np.abs(a).max()):  # the path of minima does not go on smoothly
                return None
            out.append((4 * a - c) / 3)
        return np.array(out)


class W(World):
    prop = "C18"
    technique = ("seeded simulation of histories of evaluations and fits on one additive model, with calls interrupted, failing allocations and singular factorisations at any executed line, inadmissible smoothing parameters and "
                 "reused argument buffers; refinement against a dense penalised likelihood in a basis of its own")
    rule = ("a run draws a model class, family, smooths (kind, dimension, by-factor), parametric part, weights and 2-12 calls at 1-4 points; non-trivial: at least two answers were judged")
    states_measure = "distinct (class, family, previous call, its outcome, call) tuples"
    real = ("pystatsm.pygam.gam", "pystatsm.pygam.gauls", "pystatsm.pygam.gaussian_additive_model", "pystatsm.pygam.smooth_setup", "pystatsm.utilities.splines", "pystatsm.pyglm.families", "scipy optimisers")
    stub = ("asynchronous exceptions are raised by the simulator at a chosen executed line",)
    assumptions = ("knots are taken from the model", "an evaluation whose inner iteration has not reached a minimum (distance above 1e-5 in units of the criterion), or whose curvature has condition above 1e9, is not judged",
                   "optimality of a fit is judged when the optimiser reports that its gradient test was met")
    quick_runs, thorough_runs = 1500, 80000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        import matplotlib
        matplotlib.use("Agg")
        from .. import jitcache
        jitcache.enable(self.root[: -len("pystatsm/")])
        from pystatsm.pygam import gam, gauls, gaussian_additive_model as g2
        from pystatsm.pyglm import families, links
        self.gam, self.gauls, self.g2, self.fam, self.links = gam, gauls, g2, families, links
        r = __import__("random").Random(3)
        for cls in ("gam", "gam2", "gauls"):
            sc = self.gen(r, "quick")
            while sc["config"]["cls"] != cls:
                sc = self.gen(r, "quick")
            m, df = self.build(sc["config"])

    # -------------------------------------------------------------- scenario
    def terms(self, r, lo, one):
        out = []
        for x in r.sample(["x1", "x2", "x3"], max(lo, 1 if one else r.choice([lo, 1, 1, 2, 3]))):
            out.append(dict(x=x, kind=r.choice(["cr", "cr", "cc", "bs"]), df=r.choice([5, 5, 6, 7, 9]), by=r.random() < 0.15))
        return dict(par=r.choice(["", "", "z", "g", "zg"]), terms=out)

    def gen(self, r, tier):
        cls = r.choice(["gam", "gam", "gam2", "gauls", "gauls"])
        c = dict(cls=cls, seed=r.randrange(1 << 30), n=r.choice([40, 60, 60, 120]), index=r.choice(["range", "shuffled", "text"]), ties=r.random() < 0.3, m=self.terms(r, 1, False))
        if cls == "gam":
            c["fam"] = r.choice(["gaussian", "gaussian", "gamma", "gamma", "invgauss", "gausslog"])
        elif cls == "gam2":
            c["fam"] = "gaussian"
        else:
            c["s"] = self.terms(r, 0, True) if r.random() < 0.8 else dict(par=r.choice(["", "z"]), terms=[])
            if r.random() < 0.2 and c["s"]["terms"]:
                c["m"]["terms"] = []
            c["weights"] = r.choice([None, None, "array", "column", "raw"])
            c["b"] = r.choice([0.01, 0.01, 0.1])
        k = self.size(c)
        pts = [[round(r.gauss(1, r.choice([1, 2, 4])), 3) for _ in range(k)] + ([] if cls == "gauls" else [round(r.gauss(-1, 1), 3)]) for _ in range(r.choice([1, 2, 3, 4]))]
        ops, faulty = [], r.random() < 0.7
        for _ in range(r.randrange(2, 9 if tier == "quick" else 20)):
            op = dict(op=r.choice(METHODS[cls][:-2]) if r.random() < 0.92 else "fit", at=r.randrange(len(pts)))
            x = r.random()
            if op["op"] == "fit":
                op["maxiter"] = r.choice([None, None, 3, 30])
            if faulty and x < 0.3:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 9 if op["op"] != "fit" else 13)))
            elif faulty and x < 0.38 and op["op"] != "fit":
                op["bad"] = r.choice(["nan", "inf", "short"])
            ops.append(op)
            if op["op"] == "fit" and r.random() < 0.7:
                ops.append(dict(op="comps", at=0, ci=r.choice([50, 90, 95]), data=r.random() < 0.4))
        return dict(config=dict(c, reuse=r.random() < 0.4), points=pts, ops=ops)

    def size(self, c):
        f = lambda s: sum(3 if t["by"] else 1 for t in s["terms"])
        return f(c["m"]) + (f(c["s"]) if c["cls"] == "gauls" else 0)

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("index", "range"), ("ties", False), ("reuse", False), ("weights", None), ("n", 40)):
            if c.get(k, v) != v:
                yield dict(sc, config=dict(c, **{k: v}))
        for part in ("m", "s"):
            if part not in c:
                continue
            if c[part]["par"]:
                yield dict(sc, config=dict(c, **{part: dict(c[part], par="")}))
            ts, a = c[part]["terms"], 0 if part == "m" else self.size(dict(c, cls="gam"))
            for i, t in enumerate(ts):
                w = 3 if t["by"] else 1
                if len(ts) > 1 or (c["cls"] == "gauls" and self.size(c) > w):
                    yield dict(sc, config=dict(c, **{part: dict(c[part], terms=ts[:i] + ts[i + 1:])}), points=[p[:a] + p[a + w:] for p in sc["points"]])
                if t["by"]:
                    yield dict(sc, config=dict(c, **{part: dict(c[part], terms=ts[:i] + [dict(t, by=False)] + ts[i + 1:])}), points=[p[:a + 1] + p[a + 3:] for p in sc["points"]])
                a += w

    def nontrivial(self, sc, res):
        return res["counts"].get("probe:judged", 0) >= 2

    # -------------------------------------------------------------- build
    def formula(self, spec):
        rhs = ["C(g)"] * ("g" in spec["par"]) + ["z"] * ("z" in spec["par"])
        rhs += ["s(%s, df=%d, kind='%s'%s)" % (t["x"], t["df"], t["kind"], ", by=g" if t["by"] else "") for t in spec["terms"]]
        return "y ~ " + (" + ".join(rhs) if rhs else "1")

    def frame(self, c):
        a = np.random.default_rng(c["seed"])
        cols = sum(t["df"] * (3 if t["by"] else 1) for k in ("m", "s") if k in c for t in c[k]["terms"])
        n = max(c["n"], 3 * cols + 12)
        df = pd.DataFrame(dict(x1=a.uniform(-1, 1, n), x2=np.sort(a.normal(size=n)) * 3, x3=a.uniform(0, 10, n), z=a.normal(size=n), g=np.resize(list("abc"), n), w=a.uniform(0.3, 2.5, n)))
        if c["ties"]:
            df["x1"] = np.round(df["x1"], 1)
        f = np.sin(3 * df.x1) * 0.7 + 0.2 * np.cos(df.x2) + 0.05 * df.x3 + 0.2 * df.z + (df.g == "b") * 0.4
        if c.get("fam") in ("gamma", "invgauss", "gausslog"):
            df["y"] = np.exp(0.5 * f) * a.gamma(6, 1 / 6, n)
        else:
            df["y"] = f + a.normal(size=n) * (0.4 if c["cls"] != "gauls" else np.exp(0.4 * np.cos(df.x3) - 0.7))
        if c["index"] == "shuffled":
            df.index = a.permutation(n) + 5
        elif c["index"] == "text":
            df.index = ["r%d" % (i % 7) for i in range(n)]
        return df

    def build(self, c):
        df = self.frame(c)
        if c["cls"] == "gam":
            L = self.links.LogLink
            fam = dict(gaussian=lambda: None, gamma=lambda: self.fam.Gamma(link=L), invgauss=lambda: self.fam.InverseGaussian(link=L), gausslog=lambda: self.fam.Gaussian(link=L))[c["fam"]]()
            return self.gam.GAM(self.formula(c["m"]), df, fam), df
        if c["cls"] == "gam2":
            return self.g2.GaussianAdditiveModel(self.formula(c["m"]), df), df
        w = dict(array=df["w"].to_numpy().copy(), raw=df["w"].to_numpy().copy(), column="w").get(c["weights"])
        link = self.gauls.LogbLink if c["b"] == 0.01 else self.gauls.LogbLink(c["b"])
        return self.gauls.GauLS(self.formula(c["m"]), self.formula(c["s"]), df, s_link=link, weights=w, weights_normalize=c["weights"] != "raw"), df

    # -------------------------------------------------------------- run
    def near(self, x, y, kind, tol, what):
        self.ctx.close(np.asarray(x, float), np.asarray(y, float), kind, rtol=tol, atol=tol, what=what)

    def execute(self, sc, ctx):
        self.ctx, c = ctx, sc["config"]
        m, df = self.build(c)
        snap = df.copy(deep=True)
        D = self.D = Dense(c, df, m)
        if np.linalg.cond(m.X if c["cls"] != "gauls" else m.m.X) > 1e7 or (c["cls"] == "gauls" and np.linalg.cond(m.s.X) > 1e7):
            ctx.count("probe:singular")
            return
        ctx.check(D.fits, "wrong-design", "the columns of the design do not span those of the smooths' bases, centred")
        ctx.check(np.array_equal(D.r, np.asarray(m.ranks, float)), "wrong-design", "ranks of the penalties %s, of the reference %s" % (m.ranks, D.r))
        for i, S in enumerate(m.S):
            self.near(np.sort(np.linalg.eigvalsh(S)) / np.abs(S).max(), np.sort(np.linalg.eigvalsh(D.T.T @ D.S[i] @ D.T)) / np.abs(S).max(), "wrong-design", 1e-7, "penalty %d" % i)
        kept, prev = [], ("start", "")
        buf = np.zeros(len(sc["points"][0]))
        start = (m.theta_init.copy(), None)
        fitted = False
        for i, op in enumerate(sc["ops"]):
            name = op["op"]
            if name == "comps" and not fitted:
                continue
            th = np.array(sc["points"][op["at"]], float)
            bad = op.get("bad")
            if bad == "short":
                th = th[:-1]
            elif bad:
                th[op["at"] % len(th)] = dict(nan=np.nan, inf=np.inf)[bad]
            if c["reuse"] and bad != "short":
                buf[:] = th
                th = buf
            th0 = th.copy()
            ctx.count("op:" + name)
            f, how, out = op.get("fault"), "returned", None
            if name == "fit":
                fitted = False
            try:
                if f:
                    with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                        out = self.call(m, op, th)
                else:
                    out = self.call(m, op, th)
            except BaseException as e:
                if faults.injected(e):
                    how = "fault"
                    ctx.count("fault:" + f["kind"])
                elif bad or (f and lf.fired and isinstance(e, Exception)):
                    how = "rejected"
                    ctx.count("fault:" + ("inadmissible" if bad else f["kind"]))
                elif name == "fit" and isinstance(e, np.linalg.LinAlgError):
                    how = "singular"
                    ctx.count("probe:singular")
                    try:
                        self.call(self.build(c)[0], op, th)
                        ctx.fail("fit-depends-on-history", "a fit raised %s after a history, and returns on a fresh model" % e)
                    except np.linalg.LinAlgError:
                        pass
                elif self.hopeless(name, th):
                    how = "singular"
                    ctx.count("probe:singular")
                else:
                    ctx.fail("raised", "%s raised %s: %s" % (name, type(e).__name__, str(e)[:200]))
            ctx.state(c["cls"], c.get("fam", c.get("weights")), prev[0], prev[1], name)
            ctx.event(i, name, how)
            prev = (name, how)
            ctx.check(np.array_equal(th, th0, equal_nan=True), "argument-changed", "%s changed its argument" % name)
            if how != "returned" or bad or (f and lf.fired):
                continue
            ctx.steps += 1
            fitted = fitted or name == "fit"
            try:
                self.judge(m, op, th0, out, sc)
            except np.linalg.LinAlgError:
                ctx.count("probe:singular")
            for a in out if isinstance(out, tuple) else (out,):
                if isinstance(a, np.ndarray):
                    kept.append((name, a, a.copy()))
        for name, a, a0 in kept:
            ctx.check(np.array_equal(a, a0, equal_nan=True), "result-overwritten", "an array returned by %s changed later" % name)
        ctx.check(df.equals(snap) and df.index.equals(snap.index), "data-changed", "the caller's frame changed")
        ctx.check(np.array_equal(m.theta_init, start[0]), "start-values-changed", "start values of the fit changed")

    def hopeless(self, name, th):
        rho = th if self.D.c["cls"] == "gauls" else th[:-1]
        return self.D.solve(rho, np.zeros(self.D.p), 200) is None

    def call(self, m, op, th):
        name, cls = op["op"], self.D.c["cls"]
        rho = th if cls == "gauls" else th[:-1]
        if name == "fit":
            o = dict(options=dict(maxiter=op["maxiter"])) if op["maxiter"] else {}
            m.fit(opt_kws=o)
            return None
        if name == "comps":
            if cls == "gam" and op.get("data"):
                return m.get_smooth_comps([k for k in m.smooths if k in self.D.df], data=self.D.df.iloc[:25], ci=op["ci"])
            if cls == "gam":
                return m.get_smooth_comps(ci=op["ci"])
            return m.get_smooth_comps(m.beta, op["ci"])
        if name in ("reml", "gradient", "hessian"):
            return getattr(m, name)(th)
        if name == "f_grad_hess":
            return m._f_grad_hess(th)
        if name == "pirls":
            return m.pirls(np.exp(rho))
        if name == "beta_rho":
            return m.beta_rho(th)
        b = self.inner(m, rho)
        if name == "likelihood":
            S = m.get_penalty_mat(np.exp(rho))
            return (b, m.loglike(b), m.penalized_loglike(b, S), m.grad_ll_beta(b), m.grad_pll_beta(b, S), m.hess_ll_beta(b), m.hess_pll_beta(b, S))
        return b, getattr(m, name)(b, np.exp(rho))

    def inner(self, m, rho):
        return m.beta_rho(rho) if self.D.c["cls"] == "gauls" else m.pirls(np.exp(rho))[0]

    def minimum(self, rho, lib):
        """our coefficients at the minimum next to the library's, or None if the library's are not near one"""
        D = self.D
        if not np.all(np.isfinite(lib)):
            self.ctx.count("probe:diverged")
            return None
        gap, cond = D.gap(rho, D.T @ lib)
        if not gap < 1e-5 or not cond < 1e9:
            self.ctx.count("probe:unconverged" if cond < 1e9 else "probe:singular")
            if D.c["cls"] == "gam2" or D.c.get("fam") == "gaussian":
                self.ctx.check(not cond < 1e9, "wrong-coefficients", "coefficients of a Gaussian model are %.3g from their penalised normal equations" % gap)
            return None
        return D.solve(rho, D.T @ lib)

    def judge(self, m, op, th, out, sc):
        D, name, cls, ctx = self.D, op["op"], self.D.c["cls"], self.ctx
        if name == "fit":
            return self.judge_fit(m, op, sc)
        if name == "comps":
            return self.judge_comps(m, op, out)
        rho = th if cls == "gauls" else th[:-1]
        lib = out[0] if name == "pirls" else out if name == "beta_rho" else out[0] if isinstance(out, tuple) and name != "f_grad_hess" else self.inner(m, rho)
        b = self.minimum(rho, np.asarray(lib, float))
        if b is None:
            return
        ctx.count("probe:judged")
        w = np.sqrt(np.diag(np.linalg.inv(D.state(b, D.pen(rho))[2] + D.pen(rho)))) + 1e-8 * (1 + np.abs(b))
        self.near((D.T @ lib - b) / w, 0 * b, "wrong-coefficients", 1e-3, name + ": coefficients against the penalised normal equations, in their own units")
        L, g, B1, A, H = D.criterion(th, b)
        if name in ("reml", "f_grad_hess"):
            v = out if name == "reml" else out[0]
            self.near(v / (1 + abs(L)), L / (1 + abs(L)), "wrong-criterion", 1e-7, name)
        s = 1 + np.abs(g) + len(D.y) / 2 * 0.05
        if name in ("gradient", "f_grad_hess"):
            v = out if name == "gradient" else out[1]
            self.near(v / s, g / s, "wrong-gradient", 1e-4, name)
        if name in ("hessian", "f_grad_hess"):
            v = np.asarray(out if name == "hessian" else out[2])
            want = D.fd(th, b, lambda r, q: D.criterion(r, q)[1])
            if want is not None:
                s = 1 + np.abs(want).max()
                self.near(v / s, want / s, "wrong-hessian", 1e-3, name)
        if name == "pirls":
            f = D.parts(D.eta(D.T @ lib))[0].sum()
            pf = f + 0.5 * (D.T @ lib) @ D.pen(rho) @ (D.T @ lib)
            eta, dev = (out[1], out[3]) if cls == "gam" else (out[1], out[2])
            self.near(eta, D.eta(D.T @ lib)[0], "wrong-coefficients", 1e-7, "linear predictor")
            self.near(dev / (1 + abs(pf)), 2 * (pf if cls == "gam" else f) / (1 + abs(pf)), "wrong-criterion", 1e-7, "deviance of pirls")
            if cls == "gam":
                mu = np.exp(eta) if D.c["fam"] != "gaussian" else eta
                self.near(out[2], mu, "wrong-coefficients", 1e-9, "mean of pirls")
        if name == "likelihood":
            bb = D.T @ lib
            v, d, h = D.parts(D.eta(bb))
            S = D.pen(rho)
            f, gr, H = D.state(bb, S)
            s = 1 + abs(f)
            self.near(np.array(out[1:3]) / s, np.array([v.sum(), f]) / s, "wrong-criterion", 1e-9, "log likelihoods")
            g0 = np.concatenate([p.X.T @ x for p, x in zip(D.P, d)])
            s = 1 + np.abs(g0).max()
            self.near(out[3] / s, D.T.T @ g0 / s, "wrong-gradient", 1e-7, "gradient in the coefficients")
            self.near(out[4] / s, D.T.T @ gr / s, "wrong-gradient", 1e-7, "penalised gradient in the coefficients")
            s = np.abs(H).max() + np.abs(S).max()
            self.near(out[5] / s, D.T.T @ H @ D.T / s, "wrong-hessian", 1e-7, "Hessian in the coefficients")
            self.near(out[6] / s, D.T.T @ (H + S) @ D.T / s, "wrong-hessian", 1e-7, "penalised Hessian in the coefficients")
        if name == "grad_beta_rho":
            s = w[:, None] + np.abs(B1).max(0)
            self.near(D.T @ out[1] / s, B1 / s, "wrong-beta-derivative", 1e-3, "first derivative of the coefficients")
        if name in ("hess_beta_rho", "dhess_beta_rho"):
            if name == "hess_beta_rho":
                want = D.fd(rho, b, lambda r, q: D.criterion(np.append(r, 0.0) if cls != "gauls" else r, q)[2].T)
                got = np.asarray(out[1]) @ D.T.T
            else:
                Ti = np.linalg.inv(D.T)
                want = D.fd(rho, b, lambda r, q: m.hess_beta_rho(Ti @ q, np.exp(r)))
                got = np.asarray(out[1])
            if want is not None:
                s = 1e-3 * (1 + np.abs(b).max()) + np.abs(want).max() + w.max()
                self.near(got / s, want / s, "wrong-beta-derivative", 1e-3, name)

    def judge_fit(self, m, op, sc):
        D, ctx, cls, c = self.D, self.ctx, self.D.c["cls"], self.D.c
        th = np.array(m.theta, float)
        fresh = self.build(c)[0]
        try:
            self.call(fresh, op, th)
        except np.linalg.LinAlgError:
            ctx.fail("fit-depends-on-history", "a fit returned after a history and raises on a fresh model")
        ctx.count("probe:judged")
        for a in ("theta", "beta", "Vc", "edf"):
            x, y = np.asarray(getattr(m, a), float), np.asarray(getattr(fresh, a), float)
            if np.all(np.isfinite(y)) or not np.all(np.isfinite(x)):
                self.near(x / (1e-12 + np.abs(y).max()), y / (1e-12 + np.abs(y).max()), "fit-depends-on-history", 1e-7, a + " of a fit after a history, against a fresh model's")
        rho, phi = (th, 1.0) if cls == "gauls" else (th[:-1], math.exp(th[-1]))
        b = self.minimum(rho, m.beta)
        if b is None:
            return
        L, g, B1, A, H = D.criterion(th, b)
        if op["maxiter"] is None and m.opt.status == 1:
            free = (np.abs(rho) < 21) if cls == "gauls" else np.append(np.abs(rho) < 21, True)
            self.near(g[free] / (1 + abs(L)), 0 * g[free], "not-optimal", 1e-4, "gradient of the criterion at the fitted smoothing parameters")
        Vb = np.linalg.inv(A) * phi
        Ti = np.linalg.inv(D.T)
        back = lambda V: Ti @ V @ Ti.T
        s = np.abs(back(Vb)).max()
        self.near(m.Vb / s, back(Vb) / s, "wrong-fit", 1e-3, "covariance of the coefficients given smoothing")
        edf = np.trace(np.linalg.solve(A, H))
        self.near(m.edf, edf, "wrong-fit", 1e-2 if cls != "gam2" else 1e-5, "effective degrees of freedom")
        Hr = D.fd(th, b, lambda r, q: D.criterion(r, q)[1])
        if Hr is not None and np.abs(np.linalg.eigvalsh(Hr)).min() > 1e-3 * len(Hr) ** 0.5:
            Vp = np.linalg.inv(Hr)
            s = np.sqrt(np.abs(np.outer(np.diag(Vp), np.diag(Vp)))) + np.abs(Vp).max() * 1e-3
            self.near(m.Vp / s, Vp / s, "wrong-fit", 2e-2, "covariance of the log smoothing parameters")
            k = D.ns
            Vc = back(Vb + B1 @ Vp[:k, :k] @ B1.T)
            s = np.abs(Vc).max()
            self.near(m.Vc / s, Vc / s, "wrong-fit", 1e-2, "covariance of the coefficients")
            Vf = back(Vb @ (H / phi) @ Vb + B1 @ Vp[:k, :k] @ B1.T)
            self.near(m.Vf / s, Vf / s, "wrong-fit", 1e-2, "frequentist covariance of the coefficients")
        est = np.concatenate([m.beta, th])
        se = np.concatenate([np.sqrt(np.diag(m.Vc)), np.sqrt(np.diag(m.Vp))])
        self.near(m.res["param"], est, "wrong-fit", 1e-12, "estimates of the table")
        ok = np.isfinite(se)
        self.near(m.res["SE"][ok], se[ok], "wrong-fit", 1e-10, "standard errors of the table")
        self.near((m.res["CI95+"] - m.res["CI95-"])[ok], 2 * 1.959963984540054 * se[ok], "wrong-fit", 1e-8, "intervals of the table")
        if cls == "gam2":
            return
        y, eta = D.y, D.eta(D.T @ m.beta)
        mu = np.exp(eta[0]) if c.get("fam") not in (None, "gaussian") else eta[0]
        self.near(m.rsquared, 1 - np.sum((y - mu) ** 2) / np.sum((y - y.mean()) ** 2), "wrong-fit", 1e-8, "R squared")
        if cls == "gauls":
            tau = 1 / (np.exp(eta[1]) + c["b"])
            md, nd = np.sum(((y - mu) * tau) ** 2), np.sum(((y - y.mean()) * tau) ** 2)
            self.near(m.ll_model, D.parts(eta)[0].sum(), "wrong-fit", 1e-8, "log likelihood")
            self.near(m.reml_val / (1 + abs(L)), L / (1 + abs(L)), "wrong-fit", 1e-6, "criterion of the summary")
        else:
            md = 2 * D.parts(eta)[0].sum()
            e0 = np.full(len(y), y.mean() if c["fam"] == "gaussian" else np.log(y.mean()))
            nd = 2 * half(c["fam"], y, e0)[0].sum()
        self.near(m.deviance_explained, (nd - md) / nd, "wrong-fit", 1e-8, "explained deviance")
        self.near(m.aic, 2 * m.ll_model + 2 + 2 * m.edf, "wrong-fit", 1e-8, "AIC")

    def judge_comps(self, m, op, out):
        D, cls = self.D, self.D.c["cls"]
        z = float(ss.ndtri(1 - (100 - op["ci"]) / 200))
        b = D.T @ m.beta
        V = D.T @ m.Vc @ D.T.T
        self.ctx.count("probe:judged")
        for j, p in enumerate(D.P):
            for key, blk in p.blocks.items():
                name = key if cls != "gauls" else "%s(%s)" % ("ms"[j], key)
                if cls == "gam" and op.get("data"):
                    if key not in D.df:
                        continue
                    x = D.df[key].to_numpy()[:25]
                else:
                    x = np.linspace(blk["knots"].min(), blk["knots"].max(), 200)
                self.ctx.check(name in out, "wrong-component", "no component %s in %s" % (name, list(out)))
                B = basis(blk["kind"], blk["knots"], x) @ blk["N"]
                ix = blk["ix"] + D.off[j]
                f, se = B @ b[ix], z * np.sqrt(np.maximum(np.sum((B @ V[np.ix_(ix, ix)]) * B, 1), 0))
                got = np.asarray(out[name])
                s = 1 + np.abs(f).max() + np.abs(se).max()
                self.near(got[:, 0], x, "wrong-component", 1e-10, name + ": points")
                self.near(got[:, 1] / s, f / s, "wrong-component", 1e-7, name + ": values")
                ok = se > 1e-4 * s                                        # where the variance is positive
                self.near(got[ok, 2] / s, se[ok] / s, "wrong-component", 1e-4, name + ": half widths")
        if cls == "gauls":
            for key in dict.fromkeys(k for p in D.P for k in p.blocks):
                got = m.predict_component(key)
                col = D.df[key.split("_")[0]]
                got = got[(got.index >= col.min()) & (got.index <= col.max())]      # elsewhere one predictor may extrapolate
                x, eta = got.index.to_numpy(), []
                for j, p in enumerate(D.P):
                    e = b[D.off[j]] + 0 * x
                    if key in p.blocks:
                        blk = p.blocks[key]
                        e = e + basis(blk["kind"], blk["knots"], x) @ blk["N"] @ b[blk["ix"] + D.off[j]]
                    eta.append(e)
                s = 1 + np.abs(eta[0]).max()
                self.near(got["mu"] / s, eta[0] / s, "wrong-component", 1e-7, "predicted mean along " + key)
                self.near(np.log(got["sd"]), np.log(np.exp(eta[1]) + D.c["b"]), "wrong-component", 1e-7, "log of the predicted deviation along " + key)


WORLD = W
