"""C01: LMM2 / MMEBlocked evaluation histories against the dense marginal model."""
import copy, warnings
import numpy as np
from ..core import World
from .. import faults, lmmref

EVALS = ["loglike", "gradient", "gradient_v2", "loglike_reparam", "gradient_reparam", "gradient_v2_reparam",
         "compute_effects", "vinvcrossprod", "update_chol", "update_chol_diag", "vinv_apply", "p_apply",
         "random_effects_se", "variance_decomposition", "predict", "r_squared", "random_effects"]
WEIGHTS = [6, 6, 6, 2, 2, 2, 4, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1]


class W(World):
    prop = "C01"
    technique = "seeded simulation of evaluation histories on one LMM2 object with injected interrupts, failing allocations and inadmissible evaluations; refinement against a dense marginal-likelihood model"
    rule = ("a run draws a design (terms, layouts, covariate patterns, storage threshold, relationship matrices) and a history of "
            "3-14 calls with faults at arbitrary executed lines; non-trivial: at least two completed calls compared with the reference")
    states_measure = "distinct (previous call, its outcome, call, REML/ML, scalar/relationship) tuples"
    real = ("pystatsm.pylmm.re_mod", "compiled sparse kernels", "CHOLMOD through sksparse", "formula parsing", "parameter transforms")
    stub = ("asynchronous exceptions are raised by the simulator at a chosen executed line",)
    assumptions = ("BLAS and CHOLMOD run single threaded", "thetas are drawn with condition numbers up to about 1e4")
    quick_runs, thorough_runs = 4000, 40000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        from pystatsm.pylmm import re_mod
        self.re_mod = re_mod
        d = lmmref.gen_design(__import__("random").Random(1))
        m = re_mod.LMM2(lmmref.formula(d), lmmref.build_frame(d))
        th = np.array(lmmref.gen_theta(__import__("random").Random(2), d))
        m.loglike(th)
        m.gradient(th)
        m.gradient_reparam(m.mme.re_mod.reparam.fwd(th))

    # -------------------------------------------------------------- scenario
    def gen(self, r, tier):
        d = lmmref.gen_design(r)
        rel = None
        if r.random() < 0.2:
            rel = [r.choice([None, "dense", "block", "ar", "sparse"]) for _ in d["terms"]]
            if all(x is None for x in rel):
                rel[0] = "ar"
        thetas = [lmmref.gen_theta(r, d, spread=r.choice([0.5, 1.0, 2.0])) for _ in range(r.choice([1, 2, 3]))]
        ops = []
        faulty = r.random() < 0.75
        n_ops = r.randrange(3, 15 if tier == "quick" else 30)
        enabled = [e for e in EVALS if r.random() < 0.6] or EVALS[:3]
        for _ in range(n_ops):
            w = [WEIGHTS[EVALS.index(e)] for e in enabled]
            op = dict(op=r.choices(enabled, w)[0], th=r.randrange(len(thetas)), reml=r.random() < 0.6)
            x = r.random()
            if faulty and x < 0.25:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 8.5)))
            elif faulty and x < 0.4:
                op["bad"] = lmmref.gen_bad_theta(r, d)
            if op["op"] == "vinvcrossprod":
                op["ab"] = [r.randrange(1 << 20), r.choice([1, 2, 3]), r.choice(["X", "rand", "y"])]
            ops.append(op)
        return dict(config=dict(design=d, thetas=thetas, reuse=r.random() < 0.4, rel=rel, threshold=r.choice([None, None, 0.0, 0.4, 1.1])), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        if c["rel"]:
            yield dict(sc, config=dict(c, rel=None))
        if c["threshold"] is not None:
            yield dict(sc, config=dict(c, threshold=None))
        d = c["design"]
        if d["index"] != "range":
            yield dict(sc, config=dict(c, design=dict(d, index="range")))
        for f in range(len(d["factors"])):
            if d["factors"][f]["labels"] != "int":
                fs = copy.deepcopy(d["factors"])
                fs[f]["labels"] = "int"
                yield dict(sc, config=dict(c, design=dict(d, factors=fs)))
        if len(d["terms"]) > 1:
            for k in range(len(d["terms"])):
                s = lmmref.vech_sizes(d)
                a = sum(s[:k])
                cut = lambda t: t[:a] + t[a + s[k]:]
                ops = [dict(o, bad=cut(o["bad"])) if o.get("bad") else o for o in sc["ops"]]
                rel = None if not c["rel"] else [x for j, x in enumerate(c["rel"]) if j != k]
                yield dict(sc, ops=ops, config=dict(c, rel=rel, thetas=[cut(t) for t in c["thetas"]],
                                                    design=dict(d, terms=d["terms"][:k] + d["terms"][k + 1:])))

    # -------------------------------------------------------------- build
    def relmat(self, kind, L, seed):
        import scipy.sparse as sps
        rg = np.random.default_rng(seed)
        if kind is None:
            return None, None
        if kind == "ar":
            A = 0.5 ** np.abs(np.subtract.outer(np.arange(L), np.arange(L)))
            return A, A
        if kind == "dense":
            B = rg.normal(size=(L, L + 3))
            A = B @ B.T / (L + 3) + 0.3 * np.eye(L)
            return A, A
        if kind == "block":
            A = np.eye(L)
            for i in range(0, L - 1, 2):
                A[i, i + 1] = A[i + 1, i] = 0.4
            return A, A
        A = np.eye(L)                      # banded sparse: inverse is dense
        for i in range(L - 1):
            A[i, i + 1] = A[i + 1, i] = 0.3
        return A, sps.csc_matrix(A)

    def build(self, sc):
        c = sc["config"]
        d = c["design"]
        df = lmmref.build_frame(d)
        snap = df.copy(deep=True)
        kws = {} if c["threshold"] is None else dict(sparse_threshold=c["threshold"])
        ref = lmmref.Dense(d, df)
        if c["rel"]:
            rel = [self.relmat(k, ref.nlev[i], d["seed"] + i) for i, k in enumerate(c["rel"])]
            ref = lmmref.Dense(d, df, a_covs=[a for a, _ in rel])
            rm = self.re_mod.RandomEffects([(t["form"], t["group"]) for t in d["terms"]], data=df, a_covs=[b for _, b in rel])
            mme = self.re_mod.MMEBlocked(ref.X.copy(), ref.y.reshape(-1, 1).copy(), rm, **kws)
            model = self.re_mod.LMM2.__new__(self.re_mod.LMM2)
            model.mme = mme
        else:
            model = self.re_mod.LMM2(lmmref.formula(d), df, mme_kws=kws or None)
        return model, ref, df, snap

    # -------------------------------------------------------------- run
    def call(self, m, op, th, ref):
        name, reml = op["op"], op["reml"]
        mme = m.mme
        if name in ("loglike", "gradient", "gradient_v2"):
            return getattr(m, name)(th, reml)
        if name.endswith("_reparam"):
            return getattr(m, name)(self._eta, reml)
        if name == "compute_effects":
            return m.compute_effects(th)
        if name == "vinvcrossprod":
            A, B = self._ab
            return m.vinvcrossprod(A, B, th)
        if name == "update_chol":
            return mme.update_chol(th)
        if name == "update_chol_diag":
            return mme.update_chol_diag(th)
        if name == "vinv_apply":
            m._factor_C(th)
            return mme.vinv_apply(self._vec, th)
        if name == "p_apply":
            m._factor_C(th)
            return mme.p_apply(self._vec, th, ref.at(th)["C"], reml)
        # queries on an adopted state (what fit stores)
        b, C, u = m.compute_effects(th)
        m.theta, m.beta, m.XtVinvX_inv, m.u = th.copy(), b, C, u
        if name == "random_effects_se":
            return m.random_effects_se()
        if name == "variance_decomposition":
            return m.variance_decomposition()
        if name == "r_squared":
            return m.r_squared()
        if name == "random_effects":
            return m.random_effects()
        return m.predict()

    def execute(self, sc, ctx):
        c = sc["config"]
        m, ref, df, snap = self.build(sc)
        buf, ebuf = np.zeros(ref.npar), np.zeros(ref.npar)
        frng = np.random.default_rng(c["design"]["seed"] + 7)
        kept = []
        prev = ("start", "")
        for i, op in enumerate(sc["ops"]):
            if op["th"] >= len(c["thetas"]):
                continue
            bad = op.get("bad")
            vals = bad if bad else c["thetas"][op["th"]]
            th = np.array(vals, dtype=float)
            if c.get("reuse") and len(th) == ref.npar:
                buf[:] = th              # the caller updates its own array in place between calls
                th = buf
            name, reml = op["op"], op["reml"]
            if len(th) != ref.npar:
                continue
            if c["rel"] and name in ("variance_decomposition", "r_squared") :
                pass
            self._vec = frng.normal(size=ref.n)
            if name == "vinvcrossprod":
                rg = np.random.default_rng(op["ab"][0])
                pick = dict(X=ref.X, y=ref.y.reshape(-1, 1), rand=rg.normal(size=(ref.n, op["ab"][1])))
                self._ab = (pick[op["ab"][2]].copy(), pick["rand"].copy())
                ab0 = [a.copy() for a in self._ab]
            arg = th
            if name.endswith("_reparam"):
                if bad:
                    continue
                self._eta = m.mme.re_mod.reparam.fwd(th.copy())
                if c.get("reuse"):
                    ebuf[:] = self._eta
                    self._eta = ebuf
                arg = self._eta
            arg0 = arg.copy()
            f = op.get("fault")
            ctx.count("op:" + name)
            outcome = "ok"
            try:
                if f:
                    with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                        out = self.call(m, op, th, ref)
                else:
                    out = self.call(m, op, th, ref)
            except BaseException as e:
                if faults.injected(e):
                    outcome = "fault"
                    ctx.count("fault:" + f["kind"])
                    ctx.event(i, name, "fault", f["kind"], lf.where[1])
                elif bad:
                    outcome = "rejected"
                    ctx.count("fault:inadmissible-rejected")
                    ctx.event(i, name, "rejected", type(e).__name__)
                elif f and lf.fired and isinstance(e, Exception):
                    outcome = "fault"
                    ctx.count("fault:" + f["kind"])
                    ctx.event(i, name, "fault-translated", type(e).__name__)
                else:
                    ctx.fail("raised:" + name, "%s raised %s: %s" % (name, type(e).__name__, e))
            ctx.state(prev[0], prev[1], name, reml, bool(c["rel"]))
            prev = (name, outcome)
            ctx.check(np.array_equal(arg, arg0, equal_nan=True), "argument-mutated", "%s changed its parameter vector" % name)
            if name == "vinvcrossprod":
                ctx.check(all(np.array_equal(a, b) for a, b in zip(self._ab, ab0)), "argument-mutated", "vinvcrossprod changed A or B")
            if outcome != "ok":
                continue
            if f and lf.fired:
                ctx.count("probe:fault swallowed by the code")
            if bad:
                ctx.count("fault:inadmissible-evaluated")
                ctx.event(i, name, "bad-evaluated")
                continue
            self.compare(ctx, name, reml, th, ref, out, m, c)
            ctx.steps += 1
            for a in (out if isinstance(out, tuple) else (out,)):
                if isinstance(a, np.ndarray):
                    kept.append((name, a, a.copy()))
            ctx.event(i, name, reml, *[x for x in (out if isinstance(out, tuple) else (out,))
                                       if isinstance(x, (float, np.ndarray))])
        for name, a, a0 in kept:
            ctx.check(np.array_equal(a, a0, equal_nan=True), "result-overwritten", "array returned by %s changed by a later call" % name)
        ctx.check(df.equals(snap), "data-mutated", "the data frame changed")
        if not c["rel"]:
            ctx.check(np.array_equal(m.mme.re_mod.theta, np.concatenate([lmmref.vech_ref(np.eye(k)) for k in ref.nrv] + [[1.0]])),
                      "start-values-changed", "default start values changed")

    def compare(self, ctx, name, reml, th, ref, out, m, c):
        o = ref.at(th)
        if name in ("loglike", "loglike_reparam"):
            ctx.close(out, ref.ll(th, reml), "value:" + name, rtol=0, atol=2e-7 * ref.ll_scale(th), what=name)
        elif name in ("gradient", "gradient_v2"):
            g, s = ref.grad(th, reml)
            ctx.check(np.shape(out) == g.shape, "value:" + name, "shape %s" % (np.shape(out),))
            ctx.close(np.asarray(out) / s, g / s, "value:" + name, rtol=0, atol=1e-6, what=name + " (relative to term sizes)")
        elif name.endswith("_reparam"):
            g, s = ref.grad(th, reml)
            J = self.eta_jac(m, self._eta)
            sj = np.abs(s) @ np.abs(J) + 1e-300
            ctx.close(np.asarray(out) / sj, (g @ J) / sj, "value:" + name, rtol=0, atol=1e-5, what=name)
        elif name == "compute_effects":
            b, C, u = out
            sb = np.sqrt(np.diag(o["C"]))
            ctx.close((np.asarray(b) - o["b"]) / (np.abs(o["b"]).max() + sb), np.zeros_like(o["b"]), "value:beta", rtol=0, atol=1e-6, what="beta")
            ctx.close(np.asarray(C) / np.outer(sb, sb), o["C"] / np.outer(sb, sb), "value:beta-cov", rtol=0, atol=1e-6, what="cov beta")
            su = np.abs(o["u"]).max() + 1e-6 * np.sqrt(o["G"].diagonal().max())
            ctx.close(np.asarray(u) / su, o["u"] / su, "value:u", rtol=0, atol=3e-6, what="BLUPs")
        elif name == "vinvcrossprod":
            A, B = self._ab
            want = A.T @ o["Vi"] @ B
            sc = np.sqrt(np.outer(np.sum(A * (o["Vi"] @ A), 0), np.sum(B * (o["Vi"] @ B), 0))) + np.abs(want).max()
            sc += 1e-4 * np.sqrt(np.outer(np.sum(A * A, 0), np.sum(B * B, 0))) / th[-1]
            ctx.close(np.asarray(out) / sc, want / sc, "value:" + name, rtol=0, atol=1e-6, what=name)
        elif name in ("update_chol", "update_chol_diag"):
            Z, X, y = ref.Z, ref.X, ref.y
            Cm = Z.T @ Z / th[-1] + np.linalg.inv(o["G"])
            Xy = np.column_stack([X, y])
            B = Z.T @ Xy / th[-1]
            S = Xy.T @ Xy / th[-1] - B.T @ np.linalg.solve(Cm, B)
            L22 = np.linalg.cholesky(S)
            if name == "update_chol":
                L11, L21, l22 = out
                L11 = np.asarray(L11)
                ctx.close(L11 @ L11.T, Cm, "value:update_chol", rtol=1e-6, what="L11 L11'")
                ctx.close(np.asarray(l22) @ np.asarray(l22).T, S, "value:update_chol", rtol=1e-6, what="L22 L22'")
                ctx.close(np.asarray(L21) @ np.asarray(L21).T, B.T @ np.linalg.solve(Cm, B), "value:update_chol", rtol=1e-6, what="L21 L21'")
            else:
                ldC, d22 = out
                ctx.close(ldC, np.linalg.slogdet(Cm)[1], "value:update_chol_diag", rtol=1e-6, atol=1e-5, what="log|C|")
                ctx.close(d22, np.diag(L22), "value:update_chol_diag", rtol=1e-6, what="diag L22")
        elif name in ("vinv_apply", "p_apply"):
            M = o["P"] if (name == "p_apply" and reml) else o["Vi"]
            want = M @ self._vec
            ctx.close(out, want, "value:" + name, rtol=1e-5, atol=1e-6 * np.abs(self._vec).max() / th[-1], what=name)
        elif name == "random_effects_se":
            G, Z = o["G"], ref.Z
            pev = np.diag(G - G @ Z.T @ o["P"] @ Z @ G)
            ctx.close(out, np.sqrt(np.maximum(pev, 0)), "value:" + name, rtol=1e-4, what=name)
        elif name == "predict":
            want = ref.X @ o["b"] + ref.Z @ o["u"]
            ctx.close(out, want, "value:predict", rtol=1e-5, what=name)
        elif name == "random_effects":
            k0 = 0
            for k in range(len(ref.nlev)):
                L, q = ref.nlev[k], ref.nrv[k]
                ctx.close(out[k].values, o["u"][k0:k0 + L * q].reshape(L, q), "value:random_effects", rtol=1e-5,
                          atol=1e-6 * np.sqrt(o["G"].diagonal().max()), what=name)
                k0 += L * q
        elif name in ("variance_decomposition", "r_squared"):
            vf = float(np.var(ref.X @ o["b"]))
            vr, k0 = {}, 0
            for k, Zk in enumerate(ref.Zs):
                q = Zk.shape[1]
                vr[k] = float(np.trace(Zk @ o["G"][k0:k0 + q, k0:k0 + q] @ Zk.T) / ref.n)
                k0 += q
            if name == "variance_decomposition":
                got = [out["v_fe"]] + [out["v_re"][k] for k in vr] + [out["v_resid"]]
                want = [vf] + list(vr.values()) + [th[-1]]
            else:
                tot = vf + sum(vr.values()) + th[-1]
                got = [out["marginal"], out["conditional"], out["total"]] + [out["per_term"][k] for k in vr]
                want = [vf / tot, (tot - th[-1]) / tot, tot] + [v / tot for v in vr.values()]
            ctx.close(got, want, "value:" + name, rtol=1e-6, what=name)

    def eta_jac(self, m, eta):
        f = m.mme.re_mod.reparam.rvs
        n = len(eta)
        J = np.zeros((n, n))
        for i in range(n):
            h = 1e-5 * max(1.0, abs(eta[i]))
            e = np.zeros(n)
            e[i] = h
            J[:, i] = (8 * (f(eta + e) - f(eta - e)) - (f(eta + 2 * e) - f(eta - 2 * e))) / (12 * h)
        return J

    def nontrivial(self, sc, res):
        return res["steps"] >= 2


WORLD = W
