"""C02: LMM evaluation histories against the dense marginal model."""
import warnings
import numpy as np
from ..core import World
from .. import faults, lmmref
from .c01 import W as W1

EVALS = ["loglike", "gradient", "hessian", "loglike_c", "gradient_c", "gradient_chol", "hessian_chol", "hessian_c",
         "vinvcrossprod", "effects", "gradient_dense", "gradient_old", "pls", "predict"]
WEIGHTS = [6, 6, 4, 2, 2, 4, 2, 1, 3, 4, 1, 1, 1, 1]


def chol_jac(blocks):
    """d vech(L L') / d vech(L), block by block, by definition"""
    out = []
    for L in blocks:
        m = L.shape[0]
        cols = []
        for j in range(m):
            for i in range(j, m):
                E = np.zeros((m, m))
                E[i, j] = 1.0
                cols.append(lmmref.vech_ref(E @ L.T + L @ E.T))
        out.append(np.array(cols).T)
    n = sum(b.shape[0] for b in out)
    J = np.zeros((n + 1, n + 1))
    o = 0
    for b in out:
        J[o:o + b.shape[0], o:o + b.shape[0]] = b
        o += b.shape[0]
    return J


class W(World):
    prop = "C02"
    technique = "seeded simulation of evaluation histories on one LMM object with injected interrupts, failing allocations and inadmissible evaluations; refinement against a dense marginal-likelihood model"
    rule = ("a run draws a design and a history of 3-14 calls with faults at arbitrary executed lines; non-trivial: at least two "
            "completed calls compared with the reference")
    states_measure = "distinct (previous call, its outcome, call, REML/ML) tuples"
    real = ("pystatsm.pylmm.lmm", "pystatsm.pylmm.ranef_terms", "CHOLMOD through sksparse", "formula parsing")
    stub = W1.stub
    assumptions = W1.assumptions
    quick_runs, thorough_runs = 4000, 40000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        from pystatsm.pylmm import lmm
        self.lmm = lmm
        import random
        d = lmmref.gen_design(random.Random(1))
        m = lmm.LMM(lmmref.formula(d), lmmref.build_frame(d))
        th = np.array(lmmref.gen_theta(random.Random(2), d))
        m.loglike(th)
        m.gradient(th)
        m.hessian_chol(m.transform_theta(th.copy()))

    def gen(self, r, tier):
        d = lmmref.gen_design(r)
        thetas = [lmmref.gen_theta(r, d, spread=r.choice([0.5, 1.0, 2.0])) for _ in range(r.choice([1, 2, 3]))]
        ops = []
        faulty = r.random() < 0.75
        enabled = [e for e in EVALS if r.random() < 0.6] or EVALS[:3]
        for _ in range(r.randrange(3, 13 if tier == "quick" else 25)):
            w = [WEIGHTS[EVALS.index(e)] for e in enabled]
            op = dict(op=r.choices(enabled, w)[0], th=r.randrange(len(thetas)), reml=r.random() < 0.6,
                      sw=r.random() < 0.3, sparse=r.random() < 0.7, asi=r.random() < 0.7)
            x = r.random()
            if faulty and x < 0.25:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 7.5)))
            elif faulty and x < 0.4:
                op["bad"] = lmmref.gen_bad_theta(r, d)
            if op["op"] == "vinvcrossprod":
                op["ab"] = [r.randrange(1 << 20), r.choice([1, 2, 3]), r.choice(["X", "rand", "y"])]
            ops.append(op)
        return dict(config=dict(design=d, thetas=thetas, reuse=r.random() < 0.4, rel=None, threshold=None), ops=ops)

    shrink_config = W1.shrink_config

    def call(self, m, op, th, lth):
        name, reml, sw = op["op"], op["reml"], op["sw"]
        if name == "loglike":
            return m.loglike(th, reml, sw, use_sparse=op["sparse"])
        if name == "gradient":
            return m.gradient(th, reml, sw, assume_sparse_inverse=op["asi"])
        if name == "hessian":
            return m.hessian(th, reml)
        if name == "vinvcrossprod":
            return m.vinvcrossprod(self._ab[0], self._ab[1], th)
        if name == "effects":
            return m._compute_effects(th)
        if name == "gradient_dense":
            return m._gradient_dense(th, reml)
        if name == "gradient_old":
            return m._gradient_old(th, reml)
        if name == "pls":
            return m.pls(th, self._w)
        if name == "predict":
            b, C, u = m._compute_effects(th)
            m.beta, m.u = b, u
            return m.predict()
        return getattr(m, name)(lth, reml)

    def execute(self, sc, ctx):
        c = sc["config"]
        d = c["design"]
        df = lmmref.build_frame(d)
        snap = df.copy(deep=True)
        ref = lmmref.Dense(d, df, level_order="sorted")
        m = self.lmm.LMM(lmmref.formula(d), df)
        buf, lbuf = np.zeros(ref.npar), np.zeros(ref.npar)
        frng = np.random.default_rng(d["seed"] + 7)
        kept = []
        prev = ("start", "")
        for i, op in enumerate(sc["ops"]):
            if op["th"] >= len(c["thetas"]):
                continue
            bad = op.get("bad")
            vals = bad if bad else c["thetas"][op["th"]]
            th = np.array(vals, dtype=float)
            if c.get("reuse") and len(th) == ref.npar:
                buf[:] = th              # the caller updates its own array in place between calls
                th = buf
            name, reml = op["op"], op["reml"]
            if len(th) != ref.npar:
                continue
            self._w = None if frng.random() < 0.5 else np.exp(0.3 * frng.normal(size=ref.n))
            if name == "vinvcrossprod":
                rg = np.random.default_rng(op["ab"][0])
                pick = dict(X=ref.X, y=ref.y.reshape(-1, 1), rand=rg.normal(size=(ref.n, op["ab"][1])))
                self._ab = (pick[op["ab"][2]].copy(), pick["rand"].copy())
            lth = None
            if name.endswith(("_c", "_chol")):
                if bad:
                    continue
                lth = lbuf if c.get("reuse") else np.empty_like(th)
                k0 = 0
                for s in ref.sizes:
                    lth[k0:k0 + s] = lmmref.vech_ref(np.linalg.cholesky(lmmref.invech_ref(th[k0:k0 + s])))
                    k0 += s
                lth[-1] = np.log(th[-1])
            arg = th if lth is None else lth
            arg0 = arg.copy()
            f = op.get("fault")
            ctx.count("op:" + name)
            outcome = "ok"
            lf = None
            try:
                if f:
                    with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                        out = self.call(m, op, th, lth)
                else:
                    out = self.call(m, op, th, lth)
            except BaseException as e:
                if faults.injected(e) or (lf is not None and lf.fired):
                    outcome = "fault"
                    ctx.count("fault:" + f["kind"])
                    ctx.event(i, name, "fault", f["kind"], lf.where[1])
                elif bad:
                    outcome = "rejected"
                    ctx.count("fault:inadmissible-rejected")
                    ctx.event(i, name, "rejected", type(e).__name__)
                else:
                    ctx.fail("raised:" + name, "%s raised %s: %s" % (name, type(e).__name__, e))
            ctx.state(prev[0], prev[1], name, reml)
            prev = (name, outcome)
            ctx.check(np.array_equal(arg, arg0, equal_nan=True), "argument-mutated", "%s changed its parameter vector" % name)
            if outcome != "ok":
                continue
            if bad:
                ctx.count("fault:inadmissible-evaluated")
                ctx.event(i, name, "bad-evaluated")
                continue
            self.compare(ctx, name, reml, th, lth, ref, out)
            ctx.steps += 1
            outs = out if isinstance(out, tuple) else (out,)
            for a in outs:
                if isinstance(a, np.ndarray):
                    kept.append((name, a, a.copy()))
            ctx.event(i, name, reml, *[np.asarray(x) for x in outs])
        for name, a, a0 in kept:
            ctx.check(np.array_equal(a, a0, equal_nan=True), "result-overwritten", "array returned by %s changed by a later call" % name)
        ctx.check(df.equals(snap), "data-mutated", "the data frame changed")
        want0 = np.concatenate([lmmref.vech_ref(np.eye(k)) for k in ref.nrv] + [[1.0]])
        ctx.check(np.array_equal(m.theta, want0), "start-values-changed", "start values changed by evaluations")

    def compare(self, ctx, name, reml, th, lth, ref, out):
        o = ref.at(th)
        v = "value:" + name
        if name in ("loglike", "loglike_c"):
            ctx.close(float(out), ref.ll(th, reml), v, rtol=0, atol=2e-7 * ref.ll_scale(th), what=name)
        elif name in ("gradient", "gradient_c", "gradient_dense", "gradient_old"):
            g, s = ref.grad(th, reml)
            ctx.check(np.shape(out) == g.shape, v, "shape %s" % (np.shape(out),))
            ctx.close(out / s, g / s, v, rtol=0, atol=1e-6, what=name)
        elif name in ("hessian", "hessian_c"):
            H, S = ref.hess(th, reml)
            S = S + np.sqrt(np.outer(np.diag(S), np.diag(S)))
            ctx.check(np.shape(out) == H.shape, v, "shape %s" % (np.shape(out),))
            ctx.close(out / S, H / S, v, rtol=0, atol=1e-6, what=name)
        elif name in ("gradient_chol", "hessian_chol"):
            bl, k0 = [], 0
            for s in ref.sizes:
                bl.append(np.linalg.cholesky(lmmref.invech_ref(th[k0:k0 + s])))
                k0 += s
            J = chol_jac(bl)
            J[-1, -1] = th[-1]
            g, s = ref.grad(th, reml)
            if name == "gradient_chol":
                sc = s @ np.abs(J) + 1e-300
                ctx.close(out / sc, (g @ J) / sc, v, rtol=0, atol=1e-6, what=name)
                return
            H, S = ref.hess(th, reml)
            S = S + np.sqrt(np.outer(np.diag(S), np.diag(S)))
            W = J.T @ H @ J
            SW = np.abs(J).T @ S @ np.abs(J)
            o0 = 0
            for k, sz in enumerate(ref.sizes):
                L = bl[k]
                mm = L.shape[0]
                idx = [(i, j) for j in range(mm) for i in range(j, mm)]
                for a, (i1, j1) in enumerate(idx):
                    for b, (i2, j2) in enumerate(idx):
                        E1 = np.zeros((mm, mm))
                        E2 = np.zeros((mm, mm))
                        E1[i1, j1] = 1
                        E2[i2, j2] = 1
                        q = lmmref.vech_ref(E1 @ E2.T + E2 @ E1.T)
                        W[o0 + a, o0 + b] += g[o0:o0 + sz] @ q
                        SW[o0 + a, o0 + b] += s[o0:o0 + sz] @ np.abs(q)
                o0 += sz
            W[-1, -1] += g[-1] * th[-1]
            SW[-1, -1] += s[-1] * th[-1]
            SW = SW + np.sqrt(np.outer(np.diag(SW), np.diag(SW)))
            ctx.check(np.shape(out) == W.shape, v, "shape %s" % (np.shape(out),))
            ctx.close(out / SW, W / SW, v, rtol=0, atol=1e-6, what=name)
        elif name == "effects":
            W1.compare(self, ctx, "compute_effects", reml, th, ref, out, None, None)
        elif name == "vinvcrossprod":
            W1.compare(self, ctx, "vinvcrossprod", reml, th, ref, out, None, None)
        elif name == "predict":
            ctx.close(np.asarray(out).reshape(-1), ref.X @ o["b"] + ref.Z @ o["u"], v, rtol=1e-5, what=name)
        elif name == "pls":
            w = np.ones(ref.n) if self._w is None else self._w
            W2 = np.diag(w ** 2)
            X, Z, y = ref.X, ref.Z, ref.y
            M = np.block([[X.T @ W2 @ X, X.T @ W2 @ Z], [Z.T @ W2 @ X, Z.T @ W2 @ Z + np.linalg.inv(o["G"])]])
            sol = np.linalg.solve(M, np.concatenate([X.T @ W2 @ y, Z.T @ W2 @ y]))
            b, u = np.asarray(out[1]).reshape(-1), np.asarray(out[2]).reshape(-1)
            ctx.close(b, sol[:ref.p], v, rtol=1e-5, atol=1e-7, what="pls beta")
            ctx.close(u, sol[ref.p:], v, rtol=1e-5, atol=1e-6 * np.sqrt(o["G"].diagonal().max()), what="pls u")

    def nontrivial(self, sc, res):
        return res["steps"] >= 2


WORLD = W
