"""C19: factor-analysis likelihoods, fits and rotations against the covariance model they are defined by."""
import warnings
import numpy as np
from ..core import World
from .. import faults, faref as R

ML = ["F", "grad", "hessian", "sigma", "dsigma", "score_jacobian", "meat_n", "meat_S", "loglike_psi", "grad_psi", "hess_psi", "loglike_exp", "grad_exp",
      "hess_exp", "loadings_psi", "workspace", "workspace", "sweep", "sweep", "sweep2", "sweep2", "pack", "con", "dcon", "infer", "rotate", "fit"]
EFA = ["loglike", "gradient", "hessian", "loglike_exp", "gradient_exp", "hessian_exp", "loglike_params", "gradient_params", "hessian_params",
       "sigma_params", "dsigma_params", "d2sigma_params", "loadings_psi", "sweep", "constraints", "constraint_derivs", "pack", "fit", "fit", "scores"]
FA = ["loglike", "gradient", "hessian", "implied_cov", "dsigma", "loglike_canonical", "gradient_canonical", "hessian_canonical", "loadings_psi", "sweep", "fit", "fit",
      "loglike_augmented", "gradient_augmented", "hessian_augmented", "dsigma_augmented", "d2sigma_augmented", "implied_cov_augmented"]
ROT = ["solve", "solve", "solve", "Q", "dQ", "d2Q", "d2Q_apply", "con", "dcon", "cayley", "legacy", "legacy", "legacy_df", "function", "align", "legacy_align"]
GCFS = ["varimax", "quartimax", "equamax", "parsimax"]


def vech(A):
    p = A.shape[-1]
    return np.concatenate([A[..., j:, j] for j in range(p)], axis=-1)


class W(World):
    prop = "C19"
    technique = ("seeded simulation of evaluation, fitting and rotation histories on factor-analysis objects, with exceptions injected at any "
                 "executed line and caller arrays overwritten between calls; refinement against the covariance model by exact (complex-step) "
                 "differentiation of its definition and against defining properties of rotations")
    rule = ("a run builds one estimator (concentrated/full ML estimator with identification and inference, the two older factor-analysis classes) "
            "or one set of rotation solvers and executes 3-12 calls at points dealt by the seed, some failing part-way; non-trivial: two or more "
            "answers judged")
    states_measure = "distinct (object, call, variables, factors, rotation, fault kind, outcome) tuples"
    real = ("pystatsm.pyfa2 (likelihood, layout, identification, inference, rotation, solvers, criterion, cayley, alignment)",
            "pystatsm.pyfa (efa, factor_analysis, rotation, fit_measures, align_loadings)")
    stub = ()
    assumptions = ("concentrated derivatives are judged where the discarded and retained eigenvalues are separated",
                   "a fit is judged at its own end point; that it is stationary is asked only when the optimiser reports convergence inside the "
                   "parameter space; standard errors only at a converged rotation")
    quick_runs, thorough_runs = 1500, 60000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        from pystatsm.pyfa2 import (likelihood, identification, inference, rotation, solvers, criterion, cayley, alignment, layout)
        from pystatsm.pyfa import efa, factor_analysis, rotation as orot, align_loadings
        self.lk, self.idn, self.inf, self.rot, self.sol, self.crit = likelihood, identification, inference, rotation, solvers, criterion
        self.cay, self.ali, self.lay, self.efa, self.fa, self.orot, self.oali = cayley, alignment, layout, efa, factor_analysis, orot, align_loadings
        rg = np.random.default_rng(0)
        X = rg.normal(size=(50, 5)) + rg.normal(size=(50, 1))
        for cls in (efa.FactorAnalysis, factor_analysis.FactorAnalysis):
            cls(X=(X - X.mean(0)) / X.std(0), n_factors=2, rotation_method="varimax", rotation_type="oblique").fit()

    # ------------------------------------------------------------------ scenario
    def gen(self, r, tier):
        kind = r.choice(["ml", "ml", "ml", "efa", "efa", "fa", "rot", "rot"])
        m = r.choice([1, 2, 2, 2, 3])
        p = r.choice([x for x in (3, 4, 5, 6, 7) if x >= 2 * m + 1 + (m == 1 and kind != "ml")])
        rotm = r.choice([None] + GCFS) if m > 1 else None
        c = dict(kind=kind, p=p, m=max(m, 2) if kind == "rot" else m, n=r.choice([20, 60, 200]), seed=r.randrange(1 << 30), pts=r.choice([1, 2, 3]),
                 rotm=rotm, rott=r.choice(["ortho", "oblique"]) if rotm else None, frame=r.random() < 0.3, from_cov=r.random() < 0.2,
                 crit=r.choice(GCFS + ["target"]), oblique=r.random() < 0.5, solver=r.choice(["gpa", "gpa", "cayley"]), canonical=r.random() < 0.3)
        if kind == "rot":
            c["p"] = max(p, 4)
        pool = dict(ml=ML, efa=EFA, fa=FA, rot=ROT)[kind]
        ops = []
        for _ in range(r.randrange(3, 13)):
            op = dict(op=r.choice(pool), x=r.randrange(c["pts"]), smash=r.random() < 0.3, scribble=r.random() < 0.3, s=r.randrange(1 << 30))
            if r.random() < 0.3:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 6 if op["op"] not in ("fit", "solve", "legacy") else 11)))
            ops.append(op)
        if kind == "fa" and ops[0]["op"] != "fit":
            ops.insert(0, dict(op="fit", x=0, smash=False, scribble=False, s=1))
        return dict(config=c, ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("pts", 1), ("frame", False), ("from_cov", False), ("n", 60)):
            if c[k] != v:
                yield dict(sc, config=dict(c, **{k: v}))

    def nontrivial(self, sc, res):
        return res["steps"] >= 2

    # ------------------------------------------------------------------ execution
    def execute(self, sc, ctx):
        c = sc["config"]
        p, m = c["p"], c["m"]
        rg = np.random.default_rng(c["seed"])
        L0 = rg.normal(size=(p, m)) * 0.8
        X = rg.normal(size=(c["n"], m)) @ L0.T + rg.normal(size=(c["n"], p)) * rg.uniform(0.5, 1.0, size=p)
        X = (X - X.mean(0)) / X.std(0)
        S = X.T @ X / len(X)
        ns = m * (m - 1) // 2
        pts = []
        for _ in range(c["pts"]):
            Z = rg.normal(size=(m, 2 * m + 2))
            Z = Z @ Z.T
            Z /= np.sqrt(np.outer(np.diag(Z), np.diag(Z)))
            i, j = (list(q) for q in R.lower(m))
            pts.append(np.r_[rg.normal(size=p * m) * 0.6, Z[i, j], rg.uniform(0.3, 1.2, size=p)])
        self.c, self.p, self.m, self.X, self.S, self.pts = c, p, m, X, S, pts
        self.ixs = np.arange(p * m, p * m + ns)
        self.refs = {}
        self.kept = []
        self.bufs, self.live = {}, []
        self.first_fit = None
        self.obj = self.build(c)
        self.S0 = S.copy()
        for i, op in enumerate(sc["ops"]):
            self.step(ctx, i, op)
        for a, a0, what in self.kept:
            ctx.check(np.array_equal(a, a0, equal_nan=True), "result-overwritten", lambda: "an array returned by %s changed later" % what)
        ctx.check(np.array_equal(S, self.S0), "data-changed", "the covariance matrix given was changed")

    def build(self, c):
        import pandas as pd
        if c["kind"] == "ml":
            e = self.lk.MLEstimator(self.S, self.m)
            e._ident = None
            return dict(e=e, ident=self.make_ident(c))
        if c["kind"] in ("efa", "fa"):
            cls = self.efa.FactorAnalysis if c["kind"] == "efa" else self.fa.FactorAnalysis
            kw = dict(n_factors=self.m, rotation_method=c["rotm"], rotation_type=c["rott"])
            if c["from_cov"] and c["kind"] == "efa":
                return cls(S=self.S, n_obs=c["n"], **kw)
            X = pd.DataFrame(self.X, columns=["v%d" % i for i in range(self.p)]) if c["frame"] else self.X
            return cls(X=X, **kw)
        return dict(ident=self.make_ident(c), legacy=self.make_legacy(c))

    def crit_spec(self, c):
        g = np.random.default_rng(c["seed"] + 1)
        if c["crit"] == "target":
            return dict(crit="target", H=g.normal(size=(self.p, self.m)), W=(g.random((self.p, self.m)) < 0.8).astype(float))
        return dict(crit=c["crit"])

    def make_ident(self, c):
        if c["kind"] == "ml" and c["canonical"] or self.m == 1:
            return self.idn.CanonicalIdentification(self.p, self.m)
        sp = self.crit_spec(c)
        self.rc = R.Crit(sp, self.p, self.m)
        crit = self.crit.TargetCriterion(sp["H"], sp["W"]) if c["crit"] == "target" else self.crit.GCFCriterion(c["crit"], self.p, self.m)
        if c["oblique"]:
            return self.idn.RotationIdentification(self.rot.ObliqueRotation(self.m), crit)
        return self.idn.RotationIdentification(self.rot.OrthoRotation(self.m), crit, solver=c["solver"] if c["kind"] == "rot" else "gpa")

    def make_legacy(self, c):
        sp = self.crit_spec(c)
        A = np.zeros((self.p, self.m))
        rt = "oblique" if c["oblique"] else "ortho"
        if c["crit"] == "target":
            return self.orot.TargetRotation(A, sp["H"], sp["W"], rotation_type=rt)
        return self.orot.GeneralizedCrawfordFerguson(A, c["crit"], rotation_type=rt)

    def ref(self, x, kind="full"):
        if (x, kind) not in self.refs:
            t = self.pts[x]
            if kind == "log":
                t = np.delete(t, self.ixs).copy()
                t[-self.p:] = np.log(t[-self.p:])
            self.refs[x, kind] = R.Fit(t, self.S, self.m, kind)
        return self.refs[x, kind]

    def step(self, ctx, i, op):
        c = self.c
        k = op["op"]
        ctx.count("op:" + k)
        x = op["x"] % len(self.pts)
        self.reuse = op["s"] % 3 == 0
        job = getattr(self, "do_" + c["kind"])(op, k, x)
        if job is None:
            return
        call, judge, args = job
        before = [a.copy() for a in args]
        f = op.get("fault")
        lf = err = out = None
        try:
            if f:
                with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                    out = call()
            else:
                out = call()
        except BaseException as e:
            if not (faults.injected(e) or (lf is not None and lf.fired)):
                ctx.fail("raised:" + k, repr(e))
            err = e
        if lf is not None and lf.fired:
            ctx.count("fault:" + f["kind"])
        for a, b in zip(args, before):
            ctx.check(np.array_equal(a, b), "argument-changed", lambda: "%s changed an array it was given" % k)
        ctx.state(c["kind"], k, self.p, self.m, c["rotm"], c["rott"], c["crit"] if c["kind"] == "rot" else "", c["oblique"], (f or {}).get("kind", ""),
                  type(err).__name__)
        ctx.event(i, k, x, type(err).__name__)
        if err is not None:
            return
        if judge(ctx, out) is not False:
            ctx.steps += 1
        if op["scribble"]:
            if isinstance(out, np.ndarray) and out.ndim and out.flags.writeable:
                out[...] = 7.5
        elif isinstance(out, np.ndarray):
            self.kept.append((out, out.copy(), k))
        if op["smash"]:
            for a in args:
                a[...] = -2.5

    def arg(self, t0):
        """the vector to pass: a fresh array, or one the caller passed before and has updated in place"""
        if not self.reuse:
            return t0.copy()
        b = self.bufs.setdefault(t0.shape, t0.copy())
        b[...] = t0
        return b

    def eq(self, what, want, rt=1e-8, cls=None):
        def judge(ctx, out):
            w = want() if callable(want) else want
            s = 1.0 + (np.max(np.abs(w)) if np.size(w) else 0.0)
            ctx.close(np.asarray(out) / s, np.asarray(w) / s, cls or what + "-wrong", rt, rt * 1e-2, what)
        return judge

    def psi_ok(self, psi):
        u = R.conc(psi, self.S, self.m)[2]
        q = self.p - self.m
        return u[q] - u[q - 1] > 0.05 and u[0] > 1e-3

    def conc_job(self, k, x, e, names):
        """value, gradient and Hessian of the concentrated discrepancy, in psi or log psi"""
        psi = self.pts[x][-self.p:].copy()
        if k == "loadings_psi":
            u = R.conc(psi, self.S, self.m)[2]

            def judge(ctx, A):
                if u[-self.m] <= 1.0 + 1e-6:
                    return False
                # the loadings reproduce the retained part of S: A A' = psi^1/2 V (u - 1) V' psi^1/2
                s = np.sqrt(psi)
                w, V = np.linalg.eigh(self.S / np.outer(s, s))
                V = V[:, -self.m:] * s[:, None]
                self.eq(k, (V * (w[-self.m:] - 1)) @ V.T)(ctx, A @ A.T)
                D = A.T @ (A / psi[:, None])
                self.eq(k, np.diag(np.diag(D)))(ctx, D)
            return lambda: e.loadings_from_psi(psi), judge, [psi]
        fn, logs, order = names[k]
        arg = self.arg(np.log(psi) if logs else psi)

        def want():
            f, g, u = R.conc(psi0, self.S, self.m)
            if order == 0:
                return f
            if order == 1:
                return psi0 * g if logs else g
            H = R.conc_hess(psi0, self.S, self.m)
            return H * np.outer(psi0, psi0) + np.diag(psi0 * g) if logs else H
        psi0 = psi.copy()
        if order and not self.psi_ok(psi0):
            return lambda: getattr(e, fn)(arg), lambda ctx, out: False, [arg]
        return lambda: getattr(e, fn)(arg), self.eq(k, want, 1e-8 if order < 2 else 1e-6), [arg]

    def sweep(self, e, names, g):
        """what an optimiser or a numerical derivative does: one array, updated in place between evaluations of value and gradient"""
        pool = [v for v in names.values() if v[2] < 2]
        logs = pool[g.integers(len(pool))][1]
        pool = [v for v in pool if v[1] == logs]
        arg = np.empty(self.p)
        plan = [(self.pts[g.integers(len(self.pts))][-self.p:] * np.exp(g.normal(size=self.p) * 0.2), pool[g.integers(len(pool))]) for _ in range(5)]

        def call():
            out = []
            for psi, (fn, _, _) in plan:
                arg[...] = np.log(psi) if logs else psi
                out.append(getattr(e, fn)(arg))
            return out

        def judge(ctx, out):
            for (psi, (fn, _, order)), o in zip(plan, out):
                if order and not self.psi_ok(psi):
                    continue
                f, gr, u = R.conc(psi, self.S, self.m)
                self.eq(fn, f if not order else psi * gr if logs else gr)(ctx, o)
        return call, judge, []

    # ------------------------------------------------------------------ pyfa2 estimator
    def do_ml(self, op, k, x):
        e, ident = self.obj["e"], self.obj["ident"]
        p, m, S = self.p, self.m, self.S
        t0 = self.pts[x]
        t = self.arg(t0)
        ref = lambda: self.ref(x)
        g = np.random.default_rng(op["s"])
        names = dict(loglike_psi=("loglike_psi", False, 0), grad_psi=("grad_psi", False, 1), hess_psi=("hess_psi", False, 2),
                     loglike_exp=("loglike_exp", True, 0), grad_exp=("grad_exp", True, 1), hess_exp=("hess_exp", True, 2))
        if k == "sweep":
            return self.sweep(e, names, g)
        if k in names or k == "loadings_psi":
            return self.conc_job(k, x, e, names)
        simple = dict(F=lambda: ref().F, grad=lambda: ref().grad, hessian=lambda: ref().hess, sigma=lambda: ref().Sigma, dsigma=lambda: ref().d,
                      score_jacobian=lambda: ref().score_jacobian())
        if k in simple:
            return lambda: getattr(e, k)(t), self.eq(k, simple[k]), [t]
        q = p * (p + 1) // 2
        VS = np.cov(g.normal(size=(q, 2 * q))) / 50
        if k == "meat_n":
            return lambda: e.meat(t, n_obs=40), self.eq(k, lambda: ref().meat(40)), [t]
        if k == "meat_S":
            return lambda: e.meat(t, V_S=VS), self.eq(k, lambda: ref().score_jacobian() @ VS @ ref().score_jacobian().T), [t, VS]
        if k == "sweep2":                                                 # two workspaces read alternately
            xs = [x, (x + 1) % len(self.pts)]
            seq = [(int(g.integers(2)), ["F", "grad", "hessian", "score_jacobian", "Sinv", "M", "dsigma"][g.integers(7)]) for _ in range(8)]

            def call():
                ws = [e.workspace(self.pts[j].copy()) for j in xs]
                out = []
                for j, nm in seq:
                    v = getattr(ws[j], nm)
                    out.append(v() if callable(v) else v)
                return out

            def judge(ctx, out):
                for (j, nm), o in zip(seq, out):
                    r = self.ref(xs[j])
                    self.eq("workspace", dict(F=lambda: r.F, grad=lambda: r.grad, hessian=lambda: r.hess, score_jacobian=lambda: r.score_jacobian(), Sinv=lambda: r.V,
                                              M=lambda: r.M, dsigma=lambda: r.d)[nm])(ctx, o)
            return call, judge, []
        if k == "workspace":
            mine, tw = x, t
            if self.live and op["s"] % 4:                                 # one made earlier, evaluated in part and perhaps cut short
                ws0, mine = self.live[op["s"] // 4 % len(self.live)]
                tw = None
            order = [["F", "grad", "hessian", "score_jacobian", "Sigma", "Sinv", "M", "dsigma"][j] for j in g.permutation(8)[: g.integers(1, 9)]]

            def call():
                ws = e.workspace(t0.copy()) if tw is not None else ws0
                if tw is not None:
                    self.live.append((ws, mine))
                out = []
                for nm in order:
                    v = getattr(ws, nm)
                    out.append(v() if callable(v) else v)
                return out

            def judge(ctx, out):
                r = self.ref(mine)
                w = dict(F=lambda: r.F, grad=lambda: r.grad, hessian=lambda: r.hess, score_jacobian=lambda: r.score_jacobian(), Sigma=lambda: r.Sigma,
                         Sinv=lambda: r.V, M=lambda: r.M, dsigma=lambda: r.d)
                for nm, o in zip(order, out):
                    self.eq("workspace", w[nm])(ctx, o)
            return call, judge, []
        if k == "pack":
            def call():
                L, Phi, psi = e.layout.unpack(t)
                return np.concatenate([e.layout.pack(L, Phi, np.diag(psi)), e.layout.pack(L, Phi, psi), L.T.reshape(-1), Phi.T.reshape(-1), psi])
            L, Phi, psi = R.unpack(t0, p, m)
            return call, self.eq(k, np.r_[t0, t0, L.T.reshape(-1), Phi.T.reshape(-1), psi], 1e-14), [t]
        con = self.con(ident)
        if k == "con":
            return lambda: ident.constraint(t), self.eq(k, lambda: con(t0)), [t]
        if k == "dcon":
            return lambda: ident.d_constraint(t), self.eq(k, lambda: self.dcon(con, t0)), [t]
        if k == "infer":
            H = ref().hess
            C = self.dcon(con, t0)
            free = np.flatnonzero(ident.free_mask())
            want_free = np.arange(len(t0)) if self.phi_free(ident) else np.delete(np.arange(len(t0)), self.ixs)
            # a positive definite stand-in keeps the restricted system regular away from a fit
            H = H @ H + 0.1 * np.eye(len(H))
            J = np.cov(g.normal(size=(len(t0), 3 * len(t0))))
            H1, C1, J1, mask = H.copy(), C.copy(), J.copy(), ident.free_mask()

            def call():
                V = self.inf.param_cov(H1, C1, mask, 30)
                return np.concatenate([V, self.inf.sandwich_cov(H1, C1, J1, mask), [self.inf.se_from_cov(V)]])

            def judge(ctx, out):
                ctx.check(np.array_equal(free, want_free) and ident.n_constraints() == len(C), "free-parameters-wrong", "%s" % free)
                if len(C) and (np.linalg.matrix_rank(C[:, free]) < len(C) or np.linalg.cond(C[:, free]) > 1e4):
                    return False
                B = R.restricted_bread(H, C, free)
                V = B * 2 / 30
                self.eq(k, np.concatenate([V, B @ J[np.ix_(free, free)] @ B.T, [np.sqrt(np.diag(V))]]), 1e-6)(ctx, out)
            return call, judge, [H1, C1, J1]
        if k == "rotate":
            return self.rotate_job(op, ident, t0[: p * m].reshape(m, p).T.copy(), t0[-p:].copy())
        if k == "fit":
            def judge(ctx, out):
                psi, A, opt = out["psi"], out["Lambda"], out["opt"]
                if not (opt.status in (1, 2) and 0.02 < psi.min() and psi.max() < 5 and self.psi_ok(psi) and opt.optimality < 1e-5):
                    ctx.count("probe:not-converged")
                    return False
                self.stationary(ctx, np.r_[A.T.reshape(-1), np.zeros(len(self.ixs)), psi], A @ A.T + np.diag(psi))
                self.again(ctx, np.r_[psi, (A @ A.T).reshape(-1)])
            return lambda: e.fit_psi(), judge, []

    def phi_free(self, ident):
        return getattr(getattr(ident, "rot", None), "phi_free", False)

    def con(self, ident):
        p, m = self.p, self.m
        if not hasattr(ident, "rot"):
            return lambda z: R.canonical(*R.unpack(z, p, m)[::2])
        ob = self.phi_free(ident)
        return lambda z: self.rc.constraint(*R.unpack(z, p, m)[:2], ob)

    def dcon(self, con, t):
        d = R.cstep(con, t)
        return d.reshape(len(t), -1).T

    def stationary(self, ctx, t, Sigma):
        f = R.Fit(t, self.S, self.m)
        free = np.delete(np.arange(len(t)), self.ixs)
        ctx.check(np.abs(f.grad[free]).max() < 2e-4, "fit-not-stationary", lambda: "gradient %.3g at a converged fit" % np.abs(f.grad[free]).max())

    def again(self, ctx, key):
        if self.first_fit is None:
            self.first_fit = key
        else:
            ctx.close(key, self.first_fit, "refit-differs", 1e-7, 1e-8, "the same model fitted again")

    # ------------------------------------------------------------------ rotations
    def valid_rotation(self, ctx, T, oblique, what):
        m = self.m
        if oblique:
            ctx.close(np.sum(T * T, axis=0), np.ones(m), "rotation-invalid", 0, 1e-9, what + ": columns of T")
        else:
            ctx.close(T.T @ T, np.eye(m), "rotation-invalid", 0, 1e-9, what + ": T'T")

    def rotated(self, A, T, oblique):
        return A @ np.linalg.inv(T).T if oblique else A @ T

    def rotate_job(self, op, ident, A, psi):
        p, m = self.p, self.m
        A0 = A.copy()
        if not hasattr(ident, "rot"):
            def judge(ctx, out):
                L, T = out["L"], out["T"]
                self.valid_rotation(ctx, T, False, "canonical")
                self.eq("rotate", A0 @ T)(ctx, L)
                D = L.T @ (L / psi0[:, None])
                self.eq("rotate", np.diag(np.sort(np.diag(D))[::-1]))(ctx, D)
                self.eq("rotate", np.diag(D))(ctx, out["info"]["eigvals"])
                ctx.check(np.array_equal(out["Phi"], np.eye(m)), "rotate-wrong", "Phi")
            psi0 = psi.copy()
            return lambda: ident.fit(A, Psi=psi), judge, [A, psi]
        ob = self.phi_free(ident)
        g = np.random.default_rng(op["s"])
        T0 = None
        if g.random() < 0.5:
            T0 = g.normal(size=(m, m)) + 1.5 * np.eye(m)
            T0 = T0 / np.sqrt(np.sum(T0 ** 2, axis=0)) if ob else np.linalg.qr(T0)[0]
            if not ob and np.linalg.det(T0) < 0:
                T0[:, 0] *= -1
        start = np.eye(m) if T0 is None else T0.copy()
        if ob and np.linalg.cond(start) > 50 or not ob and ident.solver == "cayley" and np.linalg.cond(np.eye(m) + start) > 1e3:
            return None

        def judge(ctx, out):
            L, T, Phi, info = out["L"], out["T"], out["Phi"], out["info"]
            if not np.all(np.isfinite(T)) or np.linalg.cond(T) > 1e6:
                ctx.count("probe:degenerate-rotation")
                return False
            self.valid_rotation(ctx, T, ob, "rotate")
            self.eq("rotate", self.rotated(A0, T, ob), 1e-7)(ctx, L)
            self.eq("rotate", T.T @ T if ob else np.eye(m), 1e-9)(ctx, Phi)
            self.eq("rotate", A0 @ A0.T, 1e-6)(ctx, L @ Phi @ L.T)
            f0, f1 = self.rc.Q(self.rotated(A0, start, ob)), self.rc.Q(L)
            s = 1 + abs(f0)
            ctx.check(f1 <= f0 + 1e-8 * s, "rotation-worse", lambda: "criterion %.10g from %.10g" % (f1, f0))
            self.eq("rotate", f1, 1e-8)(ctx, info["f"])
            if "trace" in info:
                tr = np.array(info["trace"])
                ctx.check(np.all(np.diff(tr[:, 0]) <= 1e-9 * s) and abs(tr[0, 0] - f0) <= 1e-8 * s and info["n_iter"] == len(tr), "trace-wrong", "trace of a rotation")
                if info["grad_norm"] < 1e-6 and np.linalg.cond(T) < 30:
                    cn = self.rc.constraint(L, Phi, ob)
                    ctx.check(np.abs(cn).max() < 1e-3 * s, "rotation-not-stationary", lambda: "%s at reported gradient %.3g" % (cn, info["grad_norm"]))
        if T0 is None:
            return lambda: ident.fit(A), judge, [A]
        return lambda: ident.fit(A, T0=T0.copy()), judge, [A]

    def do_rot(self, op, k, x):
        p, m = self.p, self.m
        ident = self.obj["ident"]
        crit, leg, ob = ident.crit, self.obj["legacy"], self.c["oblique"]
        t0 = self.pts[x]
        L0, Phi0, psi0 = R.unpack(t0, p, m)
        L, Phi, t = L0.copy(), Phi0.copy(), t0.copy()
        g = np.random.default_rng(op["s"])
        vec = lambda A: A.T.reshape(-1)
        if k == "solve":
            return self.rotate_job(op, ident, L, psi0)
        if k == "Q":
            return lambda: np.array([crit.Q(L), leg.Q(L), leg.vgQ(L)[0]]), self.eq(k, lambda: np.full(3, self.rc.Q(L0))), [L]
        if k == "dQ":
            return lambda: np.array([crit.dQ(L), leg.dQ(L), leg.vgQ(L)[1]]), self.eq(k, lambda: np.array([self.rc.dQ(L0)] * 3)), [L]
        d2 = lambda: R.cstep(lambda z: vec(self.rc.dQ(z.reshape(m, p).T)), vec(L0)).T
        if k == "d2Q":
            return lambda: crit.d2Q(L), self.eq(k, d2), [L]
        if k == "d2Q_apply":
            Y = g.normal(size=(p * m, int(g.integers(1, 4))))
            Y = Y[:, 0].copy() if g.random() < 0.4 else Y
            Y1 = Y.copy()
            return lambda: crit.d2Q_apply(L, Y1), self.eq(k, lambda: d2() @ Y), [L, Y1]
        con = self.con(ident)
        if k == "con":
            def judge(ctx, out):
                self.eq(k, con(t0))(ctx, out[0])
                self.eq(k, con(t0))(ctx, out[1])
            return lambda: (ident.constraint(t), leg.constraints(L, Phi)), judge, [t, L, Phi]
        if k == "dcon":
            def call():
                J = [ident.d_constraint(t)]
                if self.c["crit"] != "target":
                    J.append(leg.dC_dL_Obl(L, Phi).reshape(m * m, p * m, order="F")[leg.lix] if ob else leg.dC_dL_Ortho(L, Phi)[leg.lix])
                return J

            def judge(ctx, out):
                w = self.dcon(con, t0)
                self.eq(k, w)(ctx, out[0])
                if len(out) > 1:
                    self.eq(k, w[:, : p * m])(ctx, out[1])
            return call, judge, [t, L, Phi]
        if k == "cayley":
            th = g.normal(size=m * (m - 1) // 2)
            th0 = th.copy()
            H = g.normal(size=(m, m))
            r = self.rot.OrthoRotation(m)

            def ref(z):
                Sk = np.zeros((m, m), z.dtype)
                i, j = (list(q) for q in R.lower(m))
                Sk[i, j], Sk[j, i] = z, -z
                return np.linalg.solve(np.eye(m) + Sk, np.eye(m) - Sk)

            def judge(ctx, out):
                Q, back, d = out
                self.eq(k, ref(th0))(ctx, Q)
                self.eq(k, th0)(ctx, back)
                self.eq(k, R.cstep(lambda z: np.sum(H * ref(z)), th0), 1e-7)(ctx, d)
            return lambda: (r.unconstrained_to_rotation(th), r.rotation_to_unconstrained(r.unconstrained_to_rotation(th)), r.d_rotation(th, H)), judge, [th]
        if k in ("legacy", "legacy_df"):
            if k == "legacy_df":
                T0 = g.normal(size=(m, m)) + 2 * np.eye(m)
                T1 = T0.copy()

                def call():
                    leg.A = L
                    return leg.df(T1), leg.f(T1), leg.rotate(T1)

                def judge(ctx, out):
                    Q = lambda z: self.rc.Q(self.rotated(L0, z.reshape(m, m).T, ob))
                    self.eq(k, R.cstep(Q, vec(T0)).reshape(m, m).T, 1e-7)(ctx, out[0])
                    self.eq(k, Q(vec(T0)))(ctx, out[1])
                    self.eq(k, self.rotated(L0, T0, ob))(ctx, out[2])
                return call, judge, [L, T1]

            def call():
                leg.A = L
                leg.fit(dict(n_iters=int(60)))
                return leg.T, leg.rotate(leg.T), leg.G, leg.opt_hist

            def judge(ctx, out):
                T, Lr, G, hist = out
                if not np.all(np.isfinite(T)) or np.linalg.cond(T) > 1e6:
                    return False
                self.valid_rotation(ctx, T, ob, k)
                self.eq(k, self.rotated(L0, T, ob), 1e-7)(ctx, Lr)
                self.eq(k, self.rc.Q(L0), 1e-8)(ctx, hist[0][0])
                if hist[-1][1] < 1e-9 and np.linalg.cond(T) < 30:
                    cn = self.rc.constraint(Lr, T.T @ T, ob)
                    ctx.check(np.abs(cn).max() < 1e-5 * (1 + abs(hist[0][0])), "rotation-not-stationary", lambda: "%s" % cn)
            return call, judge, [L]
        if k == "function":
            crname = ["quartimax", "varimax", "equamax", "parsimax", "parsimony"][g.integers(5)]
            kappa = dict(quartimax=0.0, varimax=1.0 / p, equamax=m / (2.0 * p), parsimax=(m - 1.0) / (p + m - 2.0), parsimony=1.0)[crname]
            rt = "oblique" if ob else "orthogonal"

            def Q(z):
                B = z * z
                r, cc = B.sum(1), B.sum(0)
                return ((1 - kappa) * (np.sum(r ** 2) - np.sum(B ** 2)) + kappa * (np.sum(cc ** 2) - np.sum(B ** 2))) / 4

            def judge(ctx, out):
                Lr, T, G, Gq, hist, vgq, gamma = out
                if not np.all(np.isfinite(T)) or np.linalg.cond(T) > 1e6:
                    return False
                T = T.T if ob else T                         # the oblique branch returns the transpose
                self.valid_rotation(ctx, T, ob, k)
                self.eq(k, self.rotated(L0, T, ob), 1e-7)(ctx, Lr)
                self.eq(k, kappa)(ctx, gamma)
                f, gq = vgq(Lr, gamma)
                self.eq(k, Q(Lr))(ctx, f)
                self.eq(k, R.cstep(lambda z: Q(z.reshape(m, p).T), vec(Lr)).reshape(m, p).T, 1e-7)(ctx, gq)
                self.eq(k, Q(L0))(ctx, hist[0][0])
            return lambda: self.orot.rotate(L, crname, method="cf", rotation_type=rt, n_iters=40), judge, [L]
        # alignment: a signed permutation of the columns must be undone exactly
        perm, sg = g.permutation(m), g.choice([-1.0, 1.0], size=m)
        est = (L0 * sg)[:, perm]
        Pe = (sg[:, None] * Phi0 * sg)[np.ix_(perm, perm)]
        se, pse = np.abs(g.normal(size=(p, m))), np.abs(g.normal(size=(m, m)))
        e1, P1, s1, p1 = est.copy(), Pe.copy(), se[:, perm].copy(), pse[np.ix_(perm, perm)].copy()
        nrm = L0 / np.linalg.norm(L0, axis=0)
        clear = np.abs(nrm.T @ nrm - np.eye(m)).max() < 0.8
        if k == "align":
            L0 = L0 * np.exp(g.normal(size=m) * 0.8) + g.normal(size=(p, 1)) * g.choice([0, 0.7])
            L, e1 = L0.copy(), ((L0 * sg)[:, perm]).copy()
            nrm = L0 / np.linalg.norm(L0, axis=0)
            clear = np.abs(nrm.T @ nrm - np.eye(m)).max() < 0.98

            def judge(ctx, out):
                if not clear:
                    return False
                for a, b in ((out["L"], L0), (out["Phi"], Phi0), (out["L_se"], se), (out["Phi_se"], pse)):
                    self.eq(k, b, 1e-12)(ctx, a)
            return lambda: self.ali.align_model(e1, L, P1, s1, p1, normalize=bool(g.integers(2))), judge, [e1, L, P1, s1, p1]
        if k == "legacy_align":
            def judge(ctx, out):
                for a, b in zip(out[:4], (L0, se, Phi0, pse)):
                    self.eq(k, b, 1e-8)(ctx, a)
            return lambda: self.oali.align_model_matrices(L, e1, P1, s1, p1), judge, [e1, L, P1, s1, p1]

    # ------------------------------------------------------------------ older classes
    def fitted(self, ctx, o, theta_kind):
        """a fitted older model at its end point: rotation, constraints, standard errors, fit statistics"""
        c, p, m, S = self.c, self.p, self.m, self.S
        opt = o.opt
        psi = np.diag(o.Psi)
        if not (0.02 < psi.min() and psi.max() < 5 and opt.status in (1, 2) and opt.optimality < 1e-5 and self.psi_ok(psi)):
            ctx.count("probe:not-converged")
            return False
        ob = c["rott"] == "oblique"
        L, T, Phi, A = np.asarray(o.L, float), o.T, o.Phi, o.A
        if np.linalg.cond(T) > 1e3:
            return False
        self.valid_rotation(ctx, T, ob, "fit")
        self.eq("fit", self.rotated(A, T, ob), 1e-7)(ctx, L)
        self.eq("fit", T.T @ T, 1e-9)(ctx, Phi)
        t = np.r_[L.T.reshape(-1), [Phi[i, j] for i, j in zip(*R.lower(m))], psi]
        self.eq("fit", t, 1e-12)(ctx, o.params)
        f = R.Fit(t, S, m)
        self.eq("fit", f.Sigma)(ctx, o.Sigma)
        g = np.delete(f.grad, self.ixs)
        ctx.check(np.abs(g).max() < 5e-4, "fit-not-stationary", lambda: "gradient %.3g at a converged fit" % np.abs(g).max())
        self.again(ctx, np.r_[psi, (L @ Phi @ L.T).reshape(-1)])
        ctx.count("probe:fit-judged")
        # standard errors: inverse Hessian on the tangent space of the identifying constraints
        rc = R.Crit(dict(crit=c["rotm"]), p, m) if c["rotm"] else None

        def con(z):
            l, ph, s = R.unpack(z, p, m)
            return R.canonical(l, s) if rc is None else rc.constraint(l, ph, ob)
        cn = con(t)
        n = c["n"]
        if m == 1 or np.abs(cn).max() < 1e-5 or rc is None:
            free = np.arange(len(t)) if ob else np.delete(np.arange(len(t)), self.ixs)
            C = self.dcon(con, t)
            K = np.block([[f.hess[np.ix_(free, free)], C[:, free].T], [C[:, free], np.zeros((len(C), len(C)))]])
            if np.linalg.cond(K) < 1e5:
                V = np.diag(R.restricted_bread(f.hess, C, free)) * 2 / n
                if V.min() > 1e-6:
                    ctx.close(o.se_params, np.sqrt(V), "standard-errors-wrong", 2e-4, 1e-6, "standard errors")
                    self.eq("table", np.c_[t[free], np.sqrt(V)], 1e-3)(ctx, o.res[["param", "SE"]].values)
                    ctx.count("probe:se-judged")
        # fit statistics
        k = len(np.delete(t, self.ixs)) - m * (m - 1) // 2
        df = p * (p + 1) // 2 - k
        d = f.F - np.linalg.slogdet(S)[1] - p
        from scipy.stats import chi2
        if c["kind"] == "efa":
            tb = o.chi2_table
            null = n * (-np.linalg.slogdet(S)[1])
            d0 = p * (p - 1) // 2
            self.eq("fit-index", [n * d, df, null, d0], 1e-6)(ctx, [tb.loc["Full", "Chi2"], tb.loc["Full", "df"], tb.loc["Null", "Chi2"], tb.loc["Null", "df"]])
            mi = o.misc_fit_indices["Value"]
            ll = -n * d / 2
            self.eq("fit-index", [ll, 2 * k - 2 * ll, k * np.log(n) - 2 * ll], 1e-6)(ctx, mi[["loglikelihood", "AIC", "BIC"]].values)
            if df > 0:
                self.eq("fit-index", chi2.sf(n * d, df), 1e-4)(ctx, tb.loc["Full", "pval"])
                if abs(n * d - df) > 1e-3:
                    self.eq("fit-index", np.sqrt(max(n * d - df, 0) / (df * (n - 1))), 1e-5)(ctx, mi["RMSEA"])
        else:
            self.eq("fit-index", -(n - 1) * f.F / 2, 1e-6)(ctx, o.sumstats["loglikelihood"])

    def full_jobs(self, o, k, x, suffix):
        t0 = self.pts[x]
        t = self.arg(t0)
        ref = lambda: self.ref(x)
        names = {"loglike": lambda: ref().F, "gradient": lambda: ref().grad, "hessian": lambda: ref().hess, "sigma": lambda: ref().Sigma,
                 "implied_cov": lambda: ref().Sigma, "dsigma": lambda: vech(ref().d).T,
                 "d2sigma": lambda: np.moveaxis(vech(R.d2sigma(t0, self.p, self.m, "full")), -1, 0)}
        return lambda: getattr(o, k)(t), self.eq(k, names[k[: -len(suffix)]]), [t]

    def do_efa(self, op, k, x):
        o, c, p, m = self.obj, self.c, self.p, self.m
        t0 = self.pts[x]
        t = self.arg(t0)
        names = dict(loglike=("loglike", False, 0), gradient=("gradient", False, 1), hessian=("hessian", False, 2),
                     loglike_exp=("loglike_exp", True, 0), gradient_exp=("gradient_exp", True, 1), hessian_exp=("hessian_exp", True, 2))
        if k == "sweep":
            return self.sweep(o, names, np.random.default_rng(op["s"]))
        if k in names or k == "loadings_psi":
            return self.conc_job(k, x, o, names)
        if k.endswith("_params"):
            return self.full_jobs(o, k, x, "_params")
        ob = c["rott"] == "oblique"
        rc = R.Crit(dict(crit=c["rotm"]), p, m) if c["rotm"] else None

        def con(z):
            l, ph, s = R.unpack(z, p, m)
            return R.canonical(l, s) if rc is None else rc.constraint(l, ph, ob)
        if k == "constraints":
            return lambda: o.constraints(t), self.eq(k, lambda: con(t0)), [t]
        if k == "constraint_derivs":
            def judge(ctx, out):
                w = self.dcon(con, t0)
                keep = np.delete(np.arange(len(t0)), self.ixs) if ob else np.arange(len(t0))   # the Phi block holds at a stationary rotation only
                self.eq(k, w[:, keep])(ctx, out[:, keep])
            return lambda: o.constraint_derivs(t), judge, [t]
        if k == "pack":
            L, Phi, psi = R.unpack(t0, p, m)
            return (lambda: np.r_[o.model_matrices_to_params(L, Phi, psi), o.model_matrices_to_params(*o.params_to_model_matrices(t))],
                    self.eq(k, np.r_[t0, t0], 1e-14), [t])
        if k == "fit":
            return o.fit, lambda ctx, out: self.fitted(ctx, o, "full"), []
        if k == "scores":
            if not hasattr(o, "L") or o.X is None:
                return None
            g = np.random.default_rng(op["s"])
            how = ["thurstone", "bartlett", "mcdonald", "tenBerge"][g.integers(4)]

            def judge(ctx, out):
                Z, B = out
                L, Phi, psi, S = o.L, o.Phi, np.diag(o.Psi), self.S
                if psi.min() < 0.02 or np.linalg.cond(Phi) > 50 or np.linalg.cond(L) > 50:
                    return False
                self.eq(k, (self.X - self.X.mean(0)) @ B, 1e-7)(ctx, Z)
                if how == "thurstone":
                    self.eq(k, L @ Phi, 1e-7)(ctx, S @ B)
                elif how == "bartlett":
                    P = L / psi[:, None]
                    self.eq(k, P @ np.linalg.inv(L.T @ P), 1e-6)(ctx, B)
                else:
                    self.eq(k, Phi, 1e-6)(ctx, B.T @ S @ B)
            return lambda: o.estimate_factors(method=how), judge, []

    def do_fa(self, op, k, x):
        o, c, p, m = self.obj, self.c, self.p, self.m
        t0 = self.pts[x]
        names = dict(loglike_canonical=("loglike_canonical", False, 0), gradient_canonical=("gradient_canonical", False, 1),
                     hessian_canonical=("hessian_canonical", False, 2))
        if k == "sweep":
            return self.sweep(o, names, np.random.default_rng(op["s"]))
        if k in names or k == "loadings_psi":
            return self.conc_job(k, x, o, names)
        if k == "fit":
            return o.fit, lambda ctx, out: self.fitted(ctx, o, "log"), []
        if k.endswith("_augmented"):
            return self.full_jobs(o, k, x, "_augmented") if hasattr(o, "params") else None
        th = np.delete(t0, self.ixs).copy()
        th[-p:] = np.log(th[-p:])
        th = self.arg(th)
        ref = lambda: self.ref(x, "log")
        w = dict(loglike=lambda: ref().F, gradient=lambda: ref().grad, hessian=lambda: ref().hess, implied_cov=lambda: ref().Sigma, dsigma=lambda: vech(ref().d).T)
        return lambda: getattr(o, k)(th), self.eq(k, w[k]), [th]


WORLD = W
