"""C14: memoised objectives and lazily cached workspaces under failing, interrupted and repeated evaluations."""
import warnings
import numpy as np
from ..core import World
from .. import faults


class UserError(ValueError):
    pass


class W(World):
    prop = "C14"
    technique = ("seeded simulation of evaluation histories on memoised objectives and lazy workspaces, with failing user callbacks, "
                 "interrupts at arbitrary lines and in-place changes of the argument; compared with direct evaluation")
    rule = ("a run draws which object (gradient or Hessian memo over a known function, factor-analysis workspace, polychoric pair workspace) "
            "and 4-20 reads at a few repeated points with faults; non-trivial: three or more answers compared")
    states_measure = "distinct (object kind, previous read and outcome, same/new point, read) tuples"
    real = ("pystatsm.utilities.optimizer_utils memo classes", "pystatsm.pyfa2.likelihood workspaces", "pystatsm.pylvcorr.polychoric2 pair workspaces")
    stub = ("the wrapped objective of the memo runs is a known quadratic-exponential function that fails on command",)
    assumptions = ("extra arguments of a memoised objective stay the same, as under an optimiser",)
    quick_runs, thorough_runs = 6000, 120000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        from pystatsm.utilities import optimizer_utils
        from pystatsm.pyfa2 import likelihood
        from pystatsm.pylvcorr import polychoric2
        import pandas as pd
        self.ou, self.fl, self.pc, self.pd = optimizer_utils, likelihood, polychoric2, pd
        rg = np.random.default_rng(0)
        m = polychoric2.Polychor(pd.DataFrame(rg.integers(0, 3, size=(60, 3)), columns=list("abc")))
        w = polychoric2._PairWorkspace(m, 0, 1, 0.2)
        w.loglike(), w.score(), w.hessian()

    def gen(self, r, tier):
        kind = r.choice(["jac", "hess", "hess", "fa", "fa", "poly", "args"])
        reads = dict(jac=["value", "derivative"], hess=["value", "derivative", "hessian"], args=["value", "derivative"],
                     fa=["F", "grad", "hessian", "Sigma", "dsigma", "M", "Sinv", "score_jacobian", "meat"],
                     poly=["loglike", "score", "hessian", "prob", "dp_dr", "d2p_dr2"])[kind]
        faulty = r.random() < 0.8
        npts = r.choice([1, 2, 3])
        ops = []
        for _ in range(r.randrange(4, 16 if tier == "quick" else 40)):
            op = dict(op=r.choice(reads), x=r.randrange(npts))
            y = r.random()
            if faulty and y < 0.25:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=r.randrange(1, 12) if kind != "fa" else r.randrange(1, 40))
            elif faulty and y < 0.45 and kind in ("jac", "hess", "args"):
                op["fail"] = r.choice(["before", "after"])
            elif kind in ("fa", "poly") and y > 0.85:
                op["renew"] = True
            ops.append(op)
        return dict(config=dict(kind=kind, n=r.choice([1, 2, 3, 5]), p=r.choice([4, 5, 6]), m=r.choice([1, 2, 3]), seed=r.randrange(1 << 30), npts=npts,
                                inplace=r.random() < 0.5), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("n", 1), ("m", 1), ("p", 4), ("inplace", False)):
            if c[k] != v:
                yield dict(sc, config=dict(c, **{k: v}))

    def execute(self, sc, ctx):
        getattr(self, "run_" + dict(jac="memo", hess="memo", args="memo", fa="fa", poly="poly")[sc["config"]["kind"]])(sc, ctx)

    def guarded(self, ctx, i, op, thunk):
        flt = op.get("fault")
        lf = None
        try:
            if flt:
                with faults.LineFault(self.root, flt["k"], flt["kind"]) as lf:
                    return "ok", thunk()
            return "ok", thunk()
        except UserError:
            ctx.count("fault:callback-raised")
            ctx.event(i, op["op"], "callback failed")
            return "failed", None
        except BaseException as e:
            if faults.injected(e) or (lf is not None and lf.fired):
                ctx.count("fault:" + flt["kind"])
                ctx.event(i, op["op"], "fault")
                return "fault", None
            ctx.fail("raised:" + op["op"], repr(e))

    def run_memo(self, sc, ctx):
        c = sc["config"]
        rg = np.random.default_rng(c["seed"])
        n = c["n"]
        A = rg.normal(size=(n, n))
        A = A @ A.T + np.eye(n)
        b = rg.normal(size=n)
        pts = rg.normal(size=(c["npts"], n)).round(3)
        if rg.random() < 0.2 and c["npts"] > 1:
            pts[1] = pts[0] + 1e-12               # nearly equal points are still different points
        st = dict(fail=None)
        scale = 1.0 + rg.random() if c["kind"] == "args" else None

        def direct(x):
            s = 1.0 if scale is None else scale
            e = np.exp(0.1 * x)
            return (s * (0.5 * x @ A @ x + b @ x) + e.sum(), s * (A @ x + b) + 0.1 * e, s * A + np.diag(0.01 * e))

        def fun(x, *args):
            if st["fail"] == "before":
                raise UserError("evaluation failed")
            x = np.array(x, dtype=float)
            f, g, h = direct(x)
            if st["fail"] == "after":
                raise UserError("evaluation failed late")
            return (f, g, h) if c["kind"] == "hess" else (f, g)
        memo = (self.ou.MemoizeGradHess if c["kind"] == "hess" else self.ou.MemoizeJac)(fun)
        args = () if scale is None else (scale,)
        buf = np.zeros(n)
        prev, lastx = ("start", "ok"), None
        kept = []
        for i, op in enumerate(sc["ops"]):
            x = pts[op["x"] % c["npts"]].copy()
            if c["inplace"]:
                buf[:] = x
                x = buf
            x0 = x.copy()
            st["fail"] = op.get("fail")
            ctx.count("op:" + op["op"])
            f = dict(value=memo, derivative=memo.derivative, hessian=getattr(memo, "hessian", None))[op["op"]]
            outcome, out = self.guarded(ctx, i, op, lambda: f(x, *args))
            st["fail"] = None
            ctx.state(c["kind"], prev[0], prev[1], op["x"] == lastx, op["op"], c["inplace"])
            prev, lastx = (op["op"], outcome), op["x"]
            ctx.check(np.array_equal(x, x0), "argument-mutated", op["op"])
            if outcome != "ok":
                continue
            want = dict(zip(("value", "derivative", "hessian"), direct(x0)))[op["op"]]
            ctx.close(out, want, "stale:" + op["op"], rtol=0, atol=0, what="memoised %s at point %d" % (op["op"], op["x"]))
            if isinstance(out, np.ndarray):
                kept.append((out, out.copy()))
            ctx.steps += 1
            ctx.event(i, op["op"], op["x"], np.asarray(out))
        for a, a0 in kept:
            ctx.check(np.array_equal(a, a0), "result-overwritten", "a returned array changed")

    def run_fa(self, sc, ctx):
        c = sc["config"]
        rg = np.random.default_rng(c["seed"])
        p, m = c["p"], c["m"]
        B = rg.normal(size=(p, p + 4))
        S = B @ B.T / (p + 4)
        S0 = S.copy()
        est = self.fl.MLEstimator(S, m)
        lay = est.layout

        def theta():
            L = rg.normal(size=(p, m)) * 0.7
            R = np.eye(m) + 0.2 * (np.ones((m, m)) - np.eye(m)) * rg.uniform(-1, 1)
            R = (R + R.T) / 2
            return lay.pack(L, R, np.exp(rg.normal(size=p) * 0.3))
        pts = [theta() for _ in range(c["npts"])]
        refs = {}

        def sigma(t):
            L = t[:p * m].reshape((p, m), order="F")
            Phi = np.eye(m)
            ns = m * (m - 1) // 2
            k = p * m
            for q in range(ns):
                Phi[lay._row_i[q], lay._col_j[q]] = Phi[lay._col_j[q], lay._row_i[q]] = t[k + q]
            return L @ Phi @ L.T + np.diag(t[k + ns:])

        def ref(j):
            if j not in refs:
                t = pts[j]
                nt = len(t)
                Sg = sigma(t)
                Si = np.linalg.inv(Sg)
                E = np.eye(nt)
                # Sigma is quadratic in every coordinate and bilinear across them: unit differences are exact
                d1 = [(sigma(t + e) - sigma(t - e)) / 2 for e in E]
                F = np.linalg.slogdet(Sg)[1] + np.trace(Si @ S0)
                g = np.array([np.sum(Si * D) - np.sum((Si @ S0 @ Si) * D) for D in d1])
                H = np.zeros((nt, nt))
                W1 = Si - Si @ S0 @ Si
                for a in range(nt):
                    for b in range(a + 1):
                        D2 = (sigma(t + E[a] + E[b]) - sigma(t + E[a] - E[b]) - sigma(t - E[a] + E[b]) + sigma(t - E[a] - E[b])) / 4
                        A1 = Si @ d1[a] @ Si
                        v = -np.sum(A1 * d1[b]) + 2 * np.sum((A1 @ S0 @ Si) * d1[b]) + np.sum(W1 * D2)
                        H[a, b] = H[b, a] = v
                D = np.array(d1)
                refs[j] = dict(Sigma=Sg, Sinv=Si, F=F, grad=g, hessian=H, dsigma=D, M=np.array([Si @ d @ Si for d in d1]))
                refs[j]["meat"] = (2.0 / 100) * np.einsum("aij,bij->ab", D, refs[j]["M"])
            return refs[j]
        ws = {}
        prev = ("start", "ok")
        kept = []
        tbuf = np.zeros(lay.nt)
        for i, op in enumerate(sc["ops"]):
            j, name = op["x"] % c["npts"], op["op"]
            ctx.count("op:" + name)
            direct = bool(op.get("renew"))
            if direct and name in ("Sigma", "M", "Sinv"):
                ws.pop(j, None)
                direct = False
            if direct:                     # through the estimator, with a caller array reused in place
                tbuf[:] = pts[j]
                get = lambda: (est.meat(tbuf, n_obs=100) if name == "meat" else getattr(est, name)(tbuf))
            else:
                if j not in ws:
                    ws[j] = est.workspace(pts[j].copy())
                w = ws[j]
                get = lambda: (w.meat(n_obs=100) if name == "meat" else
                               getattr(w, name)() if name in ("F", "grad", "hessian", "score_jacobian") else getattr(w, name))
            outcome, out = self.guarded(ctx, i, op, get)
            ctx.state("fa", prev[0], prev[1], name, direct)
            prev = (name, outcome)
            if outcome != "ok":
                continue
            if name == "score_jacobian":
                r0 = ref(j)["M"]
                want = []
                for k in range(len(r0)):
                    w2 = -r0[k] * (2 - np.eye(p))
                    want.append(np.concatenate([w2[q:, q] for q in range(p)]))
                want = np.array(want)
            else:
                want = ref(j)[name]
            ctx.close(out, want, "stale:" + name, rtol=1e-8, atol=1e-9, what="workspace %s" % name)
            ctx.steps += 1
            if isinstance(out, np.ndarray):
                kept.append((name, out, out.copy()))
            ctx.event(i, name, j)
        for name, a, a0 in kept:
            ctx.check(np.array_equal(a, a0), "result-overwritten", "%s changed after it was returned" % name)
        ctx.check(np.array_equal(S, S0), "argument-mutated", "the covariance matrix changed")

    def run_poly(self, sc, ctx):
        c = sc["config"]
        rg = np.random.default_rng(c["seed"])
        pv = 3
        X = np.stack([rg.integers(0, rg.integers(2, 5), size=60) for _ in range(pv)], axis=1)
        X[:4, :] = np.arange(4)[:, None] % 2
        for k in range(pv):
            X[:, k] = np.unique(X[:, k], return_inverse=True)[1]
        est = self.pc.Polychor(self.pd.DataFrame(X, columns=["a", "b", "c"]))
        prs = [(1, 0), (2, 0), (2, 1)]
        pts = [(prs[rg.integers(3)], float(rg.uniform(-0.9, 0.9))) for _ in range(c["npts"])]
        ws = {}
        refs = {}

        def ref(j):
            """cell probabilities by one-dimensional quadrature, then the definitions"""
            if j not in refs:
                from scipy import stats
                (i1, i2), r = pts[j]
                x, w = np.polynomial.legendre.leggauss(200)
                tab = np.zeros((est.ncat[i1], est.ncat[i2]))
                np.add.at(tab, (X[:, i1], X[:, i2]), 1)
                tau = []
                for q in (i1, i2):
                    pr = np.cumsum(np.bincount(X[:, q], minlength=est.ncat[q]))[:-1] / len(X)
                    tau.append(np.r_[-9.0, stats.norm.ppf(pr), 9.0])
                P = np.zeros_like(tab)
                for a in range(tab.shape[0]):
                    lo, hi = tau[0][a], tau[0][a + 1]
                    z = 0.5 * (hi - lo) * x + 0.5 * (hi + lo)
                    ph = stats.norm.pdf(z) * 0.5 * (hi - lo) * w
                    cd = stats.norm.cdf((tau[1][:, None] - r * z) / np.sqrt(1 - r * r))
                    P[a] = np.diff(cd @ ph)
                refs[j] = (tab, P)
            return refs[j]
        prev = ("start", "ok")
        for i, op in enumerate(sc["ops"]):
            j, name = op["x"] % c["npts"], op["op"]
            (i1, i2), r = pts[j]
            if j not in ws or op.get("renew"):
                ws[j] = self.pc._PairWorkspace(est, i1, i2, r)
            w = ws[j]
            ctx.count("op:" + name)
            outcome, out = self.guarded(ctx, i, op, lambda: getattr(w, name)() if name in ("loglike", "score", "hessian") else getattr(w, name))
            ctx.state("poly", prev[0], prev[1], name)
            prev = (name, outcome)
            if outcome != "ok":
                continue
            fresh = self.pc._PairWorkspace(est, i1, i2, r)
            want = getattr(fresh, name)() if name in ("loglike", "score", "hessian") else getattr(fresh, name)
            ctx.close(out, want, "stale:" + name, rtol=1e-12, atol=1e-12, what="pair workspace %s" % name)
            tab, P = ref(j)
            if name == "prob":
                ctx.close(out, P, "value:prob", rtol=1e-6, atol=1e-7, what="cell probabilities")
            elif name == "loglike" and P.min() > 1e-6:
                ctx.close(out, -np.sum(tab * np.log(P)), "value:loglike", rtol=1e-5, atol=1e-5, what="pair likelihood")
            ctx.steps += 1
            ctx.event(i, name, j)

    def nontrivial(self, sc, res):
        return res["steps"] >= 3


WORLD = W
