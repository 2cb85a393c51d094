"""C08: complex-survey replication studies and design variances, with dealt draws, failures and interleaved studies."""
import warnings
import numpy as np
import pandas as pd
from ..core import World
from .. import faults, variates, jitcache, threads

KS = 3.7
LABELS = ("int", "int", "float", "str", "cat", "cat", "none")


class Failed(Exception):
    pass


def textbook(strata, psu, U, singleton, fpc=None):
    """sum over strata of (1 - f_h) n_h / (n_h - 1) sum over PSUs of squared deviations of PSU totals; strata and psu are
    ranks; returns the matrix and the PSU counts in order of stratum (folded singletons last)"""
    by = {}
    for s, q, u in zip(strata, psu, U):
        d = by.setdefault(s, {})
        d[q] = d.get(q, 0) + u
    single = [s for s in sorted(by) if len(by[s]) == 1]
    groups = [list(by[s].values()) for s in sorted(by) if not (singleton == "aggregate" and len(by[s]) == 1)]
    if singleton == "aggregate" and single:
        groups.append([t for s in single for t in by[s].values()])
    M = np.zeros((U.shape[1], U.shape[1]))
    for h, g in enumerate(groups):
        n = len(g)
        if n > 1:
            T = np.array(g) - np.mean(g, axis=0)
            M += (1 - (0 if fpc is None else fpc[h])) * n / (n - 1) * T.T @ T
    return M, [len(g) for g in groups], len(single)


class W(World):
    prop = "C08"
    technique = ("seeded simulation of replication studies: every draw is dealt (ordinary, extreme, zero, repeated) or fails, a replicate's estimator or design fails, executed lines are interrupted, and studies sharing a population "
                 "and estimator are interleaved between any two lines; each row is recomputed from the frame drawn for it, design variances from the textbook formula on the frame")
    rule = ("a run makes 1-4 steps: a design of drawn layout with a chain of subsets and variances, a replication study, or 2-3 studies interleaved; non-trivial: at least one variance, row or frame was judged")
    states_measure = "distinct (step, population, layout kind, singleton policy, draw modes, fault kind, outcome) tuples"
    real = ("pystatsm.utilities.complexdesign", "pystatsm.pyglm2.glm.GLM behind GLMAdapter", "scipy optimisers", "compiled numba kernel")
    stub = ("random numbers (dealt by the simulator)", "thread scheduling of interleaved studies: the baton decides who runs")
    assumptions = ("strata and PSU labels are present for every row and can be ordered; a folded stratum of singletons comes after the others", "a design whose weighted cross-product has condition above 1e8, or a separated binomial sample, is not judged",
                   "a binomial fit is judged by its score, not by its distance to the optimum", "the law of a population's draws is judged by a Kolmogorov distance whose excess has probability 3e-12")
    quick_runs, thorough_runs = 1100, 60000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        jitcache.enable(self.root[: -len("pystatsm/")])
        import pystatsm.utilities.complexdesign as cd
        import pystatsm.pyglm2.families as f2
        self.cd, self.f2 = cd, f2
        df = pd.DataFrame(dict(s=[0, 0, 1, 1], p=[0, 1, 2, 3], y=[1.0, 0, 2, 1], x=[1.0, 2, 3, 5]))
        D = cd.SampleDesign(df, "s", "p")
        D.meat(np.ones((4, 2)))
        cd.GLMAdapter("y ~ x").fit(D)
        df["y"] = [0.0, 1, 1, 0]
        cd.GLMAdapter("y ~ x", f2.Binomial).fit(cd.SampleDesign(df, "s", "p"))

    def gen(self, r, tier):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            kind = r.choice(["layout", "layout", "layout", "draw", "study", "study", "pair"])
            op = dict(op=kind, s=r.randrange(1 << 20), k=r.randrange(64))
            if kind == "layout":
                op.update(strata=r.choice(LABELS), psu=r.choice(LABELS), h=r.choice([1, 2, 3, 5]), m=r.choice([1, 1, 2, 3]), q=r.choice([1, 2, 4]), policy=r.choice(["aggregate", "aggregate", "none", "error"]),
                          fpc=r.choice([0, 0, 0, 1, 2]), chain=[r.choice(["meat", "subset", "sandwich"]) for _ in range(r.choice([1, 2, 4, 6]))])
            else:
                op.update(pop=r.choice(["linear", "linear", "binomial"]), h=r.choice([1, 2, 3]), m=r.choice([2, 2, 3, 1]), q=r.choice([4, 6, 10]), icv=r.choice([0.0, 0.3, 1.0]), rv=r.choice([1.0, 0.25, 0.0]),
                          wt=r.choice([None, None, "x", "series"]), rep=r.choice([1, 2, 3, 5]), sub=r.random() < 0.25, adapter=r.choice(["wls", "wls", "glm"]), law=r.random() < 0.3, b=r.choice([1, 2, 3]))
            if kind == "pair":
                op.update(studies=r.choice([2, 2, 3]), gap=r.choice([0, 3, 20, 100, 500]), sched=r.randrange(1 << 30), adapter="wls", rep=r.choice([1, 2, 3]))
            x = r.random()
            if x < 0.15:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 10)))
            elif x < 0.25 and kind != "layout":
                op["drawfault"] = dict(kind=r.choice(["interrupt", "memory"]), k=r.randrange(1, 12))
            elif x < 0.4 and kind in ("study", "pair"):
                op["repfault"] = dict(kind=r.choice(["adapter", "design"]), k=r.randrange(op["rep"]))
            ops.append(op)
        modes = [r.choice(variates.MODES) if r.random() < 0.4 else "iid" for _ in range(r.choice([1, 2, 3]))]
        return dict(config=dict(seed=r.randrange(1 << 30), modes=modes), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        if c["modes"] != ["iid"]:
            yield dict(sc, config=dict(c, modes=["iid"]))
        for i, op in enumerate(sc["ops"]):
            for k, v in (("h", 1), ("h", 2), ("m", 1), ("m", 2), ("q", 1), ("q", 4), ("rep", 1), ("rep", 2), ("b", 1), ("studies", 2), ("icv", 0.0), ("wt", None), ("sub", False), ("law", False), ("fpc", 0)):
                if k in op and op[k] != v and (not isinstance(v, int) or op[k] > v):
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])
            if len(op.get("chain", ())) > 1:
                for j in range(len(op["chain"])):
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, chain=op["chain"][:j] + op["chain"][j + 1:])] + sc["ops"][i + 1:])

    def nontrivial(self, sc, res):
        return res["counts"].get("probe:judged", 0) > 0

    def execute(self, sc, ctx):
        self.ctx, self.c = ctx, sc["config"]
        for i, op in enumerate(sc["ops"]):
            ctx.count("op:" + op["op"])
            ctx.steps += 1
            how = getattr(self, "op_" + op["op"])(op, i)
            ctx.event(op["op"], how)
            f = op.get("fault") or op.get("drawfault") or op.get("repfault") or {}
            ctx.state(op["op"], op.get("pop"), op.get("strata"), op.get("psu"), op.get("policy"), op.get("adapter"), "".join(sorted(set(m[0] for m in self.c["modes"]))), f.get("kind"), how)

    def near(self, x, y, kind, tol=1e-8, what=""):
        self.ctx.close(np.asarray(x, float), np.asarray(y, float), kind, rtol=tol, atol=tol, what=what)

    def ok(self, c, kind, what):
        self.ctx.check(bool(c), kind, what)

    def attempt(self, op, f, what):
        """run f once under the line fault, then again without it; returns what the call without the fault gives"""
        ft = op.get("fault")
        if ft:
            with faults.LineFault(self.root, ft["k"], ft["kind"]) as lf:
                try:
                    f()
                except BaseException as e:
                    if not faults.injected(e):
                        raise
                    self.ctx.count("fault:" + ft["kind"])
        return f()

    # ------------------------------------------------------------------ designs
    def labels(self, kind, codes, a, up=False):
        if kind == "none":
            return None
        codes = np.asarray(codes)
        if kind == "int":
            return codes * 3 - 2
        if kind == "float":
            return codes * 0.5 + 0.25
        names = np.array(["%s%02d" % ("abc"[c % 3 if not up else 0], c) for c in range(codes.max() + 4)])
        order = np.argsort(names) if kind == "str" else np.arange(len(names))
        lab = names[order][codes]                                         # the order of labels is the order of codes
        if kind == "cat":
            return pd.Categorical(lab, categories=names, ordered=bool(a.integers(2)))           # with unused levels
        return lab.astype(object)

    def op_layout(self, op, i):
        a = np.random.default_rng(op["s"])
        sizes = [int(a.integers(1, op["m"] + 1)) for _ in range(op["h"])]
        strata, psu = [], []
        nest = op["k"] & 1 and op["strata"] != "none"
        g = 0
        for h, m in enumerate(sizes):
            for q in range(m):
                t = int(a.integers(1, op["q"] + 1))
                strata += [h] * t
                psu += [q if nest else g] * t
                g += 1
        n = len(strata)
        o = a.permutation(n)
        strata, psu = np.array(strata)[o], np.array(psu)[o]
        df = pd.DataFrame(dict(row=np.arange(n), w=a.uniform(0.5, 3, size=n), x=a.normal(size=n)))
        if op["k"] & 2:
            df.index = a.integers(0, 3, size=n)                           # labels of rows repeat
        s, p = self.labels(op["strata"], strata, a), self.labels(op["psu"], psu, a)
        if s is not None:
            df["st"] = s
        else:
            strata = np.zeros(n, int)
        if p is not None:
            df["pu"] = p
        else:
            psu = np.arange(n)
        kw = dict(strata=None if s is None else "st", psuind=None if p is None else "pu", weight="w" if op["k"] & 4 else None, singleton=op["policy"])
        U0 = a.normal(size=(n, 3))
        _, sizes, nsingle = textbook(strata, psu, U0, op["policy"])
        fpc = None
        if op["fpc"]:
            fpc = a.uniform(0, 0.9, size=len(sizes) + (op["fpc"] == 2))
        before = df.copy(deep=True)
        want_error = (op["policy"] == "error" and nsingle) or op["fpc"] == 2
        try:
            D = self.attempt(op, lambda: self.cd.SampleDesign(df, fpc=None if fpc is None else fpc.copy(), **kw), "design")
        except ValueError as e:
            self.ok(want_error, "design-raised", "SampleDesign of %s strata and %s PSU labels raised %s" % (op["strata"], op["psu"], e))
            self.ctx.count("probe:judged")
            return "refused"
        except Exception as e:
            self.ctx.fail("design-raised", "SampleDesign of %s strata and %s PSU labels raised %s: %s" % (op["strata"], op["psu"], type(e).__name__, str(e)[:150]))
        self.ok(not want_error, "not-refused", "a design that must be refused (%s, %d singletons, fpc of length %s for %d strata) was built" % (op["policy"], nsingle, np.shape(fpc), len(sizes)))
        self.ctx.count("probe:judged")
        self.ok(before.equals(df) and before.index.equals(df.index), "caller-frame-changed", "SampleDesign changed the frame it was given")
        row = D.df["row"].to_numpy()
        self.ok(D.n == n and np.array_equal(np.sort(row), np.arange(n)), "wrong-layout", "the design's frame does not hold every row once")
        self.near(D.df["x"], before["x"].to_numpy()[row], "wrong-layout", 0, "a column of the design's frame")
        w = before["w"].to_numpy() if kw["weight"] else np.ones(n)
        self.near(D.w, w[row], "wrong-weights", 0, "weights of the design")
        self.ok(D.n_str == len(sizes) and D.n_grp == sum(sizes) and list(D.layout.n_psu_per_str) == sizes, "wrong-layout",
                "layout has %d strata, %d PSUs, %s per stratum; the frame has %s" % (D.n_str, D.n_grp, list(D.layout.n_psu_per_str), sizes))
        keep = np.ones(n, bool)                                           # by original row
        objs = [(D, keep)]
        for j, c in enumerate(op["chain"]):
            D, keep = objs[int(a.integers(len(objs)))]
            row = D.df["row"].to_numpy()
            if c == "subset":
                m = a.random(n) < 0.6
                keep = keep & m
                D = self.attempt(op, lambda: D.subset(m[row]), "subset")
                objs.append((D, keep))
                self.near(D.w, np.where(keep, w, 0)[row], "wrong-weights", 0, "weights of a subset")
                continue
            U = a.normal(size=(n, 1 + j % 3)) * np.exp(a.normal())
            V = U[row].copy()
            if c == "meat":
                got, T = self.attempt(op, lambda: D.meat(V), "meat"), U
            else:
                A = a.normal(size=(U.shape[1],) * 2)
                A = A + A.T
                Dw = V * D.w[:, None]
                got, T = self.attempt(op, lambda: self.cd.design_sandwich(A, Dw, D), "sandwich"), U * np.where(keep, w, 0)[:, None]
            want = textbook(strata, psu, T, op["policy"], fpc)[0]
            want = want if c == "meat" else A @ want @ A
            t = np.abs(want).max() + 1
            self.near(got / t, want / t, "wrong-design-variance", 1e-9, "%s against the textbook formula (%d strata, singletons %s)" % (c, len(sizes), op["policy"]))
            self.near(V, U[row], "caller-array-changed", 0, "scores passed to meat")
        for D, keep in objs:
            self.near(D.w, np.where(keep, w, 0)[D.df["row"].to_numpy()], "wrong-weights", 0, "weights of a design after subsets were taken from it")
        return "built"

    # ------------------------------------------------------------------ populations and studies
    def population(self, op, big=False):
        a = np.random.default_rng(op["s"])
        xs = ["x%d" % j for j in range(op["b"])]
        rhs = "1 + " + " + ".join(xs) if op["k"] & 1 else "x0" if op["b"] == 1 else "x0 * x1" if op["b"] == 2 else "1 + x0 + x1 + x2"
        if op["k"] & 8:
            rhs = "0 + x0"
        xs = xs if "x0" in rhs else ["x0"]
        cols = {"0 + x0": 1, "x0 * x1": 4}.get(rhs, 1 + op["b"])
        beta = a.normal(size=cols) * 0.6
        C = a.normal(size=(len(xs), len(xs) + 1))
        cov = C @ C.T / len(xs) + 0.2 * np.eye(len(xs))
        mean = a.normal(size=len(xs)) * 0.5
        wf = None if op["wt"] is None else (lambda d: np.exp(0.3 * d["x0"].to_numpy())) if op["wt"] == "x" else (lambda d: 1.0 + d["x0"] ** 2)
        kw = dict(x_cov=cov if op["k"] & 2 else None, x_mean=mean if op["k"] & 4 else None, intra_cluster_var=op["icv"], weight_fn=wf)
        if op["pop"] == "linear":
            kw["resid_var"] = op["rv"]
        cls = self.cd.LinearPopulation if op["pop"] == "linear" else self.cd.BinomialPopulation
        h, m, q = (10, 20, 10) if big else (op["h"], op["m"], op["q"])
        pop = cls("y", xs, rhs, beta.copy(), h, m, q, **kw)
        return pop, dict(beta=beta, cov=cov if op["k"] & 2 else np.eye(len(xs)), mean=mean if op["k"] & 4 else np.zeros(len(xs)), xs=xs, rhs=rhs, wf=wf, h=h, m=m, q=q)

    def design_matrix(self, info, df):
        x = [df[c].to_numpy() for c in info["xs"]]
        one = np.ones(len(df))
        r = info["rhs"]
        return np.column_stack([x[0]] if r == "0 + x0" else [one, x[0], x[1], x[0] * x[1]] if r == "x0 * x1" else [one] + x)

    def frame(self, op, info, df, what):
        h, m, q = info["h"], info["m"], info["q"]
        self.ok(len(df) == h * m * q and set(info["xs"] + ["strata", "psu", "w", "y"]) <= set(df.columns), "wrong-draw", "%s: %d rows, columns %s" % (what, len(df), list(df.columns)))
        g = df.groupby("psu")
        self.ok(len(g) == h * m and (g.size() == q).all() and (g["strata"].nunique() == 1).all() and (df.groupby("strata")["psu"].nunique() == m).all() and df["strata"].nunique() == h,
                "wrong-draw", "%s: rows are not %d strata of %d PSUs of %d" % (what, h, m, q))
        want = np.ones(len(df)) if info["wf"] is None else np.asarray(info["wf"](df))
        self.near(df["w"], want, "wrong-draw", 1e-12, what + ": weights")
        eta = self.design_matrix(info, df) @ info["beta"]
        y = df["y"].to_numpy()
        t = 1 + np.abs(eta).max() + np.abs(y).max()
        if op["pop"] == "binomial":
            self.ok(np.isin(y, (0.0, 1.0)).all(), "wrong-draw", what + ": responses other than 0 and 1")
        elif op["rv"] == 0:
            r = y - eta
            if op["icv"] == 0:
                self.near(r / t, 0 * r, "wrong-draw", 1e-9, what + ": response without noise against its linear predictor")
            else:
                r = r - df.assign(r=r).groupby("psu")["r"].transform("mean").to_numpy()
                self.near(r / t, 0 * r, "wrong-draw", 1e-9, what + ": response without unit noise, within PSUs")

    def ks(self, z, what):
        import scipy.stats as st
        z = np.sort(np.asarray(z).ravel())
        F = st.norm.cdf(z)
        n = len(z)
        D = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
        self.ok(np.sqrt(n) * D < KS, "wrong-law", "%s: Kolmogorov distance %.3g over %d draws" % (what, D, n))

    def op_draw(self, op, i):
        pop, info = self.population(op, op["law"])
        modes = ["iid"] if op["law"] else self.c["modes"]
        df_ = op.get("drawfault")
        mk = lambda f=None: variates.VGen(self.c["seed"] + i, modes, f and f["k"], f and faults.exc_type(f["kind"]))
        how = "returned"
        if df_:
            try:
                pop.draw(mk(df_))
            except BaseException as e:
                if not faults.injected(e):
                    raise
                how = "interrupted"
                self.ctx.count("fault:" + df_["kind"])
        df = self.attempt(op, lambda: pop.draw(mk()), "draw")
        self.ctx.count("probe:judged")
        self.frame(op, info, df, "draw")
        again = self.population(op, op["law"])[0].draw(mk())
        self.ok(df.equals(again), "not-reproducible", "two draws from generators in the same state differ")
        self.near(pop.theta_true, info["beta"], "wrong-draw", 0, "true parameters")
        if op["law"]:
            X = df[info["xs"]].to_numpy()
            L = np.linalg.cholesky(info["cov"])
            Z = np.linalg.solve(L, (X - info["mean"]).T)
            self.ks(Z, "covariates whitened by their covariance")
            eta = self.design_matrix(info, df) @ info["beta"]
            y = df["y"].to_numpy()
            if op["pop"] == "linear":
                r = df.assign(r=y - eta).groupby("psu")["r"]
                mean = r.mean().to_numpy()
                if op["icv"] + op["rv"] > 0:
                    self.ks(mean / np.sqrt(op["icv"] + op["rv"] / info["q"]), "PSU means of the errors")
                if op["rv"] > 0:
                    e = (y - eta - r.transform("mean").to_numpy()).reshape(-1) / np.sqrt(op["rv"])
                    ss = np.sum(e ** 2)
                    df_e = info["h"] * info["m"] * (info["q"] - 1)
                    self.ok(abs(ss - df_e) < 7.5 * np.sqrt(2 * df_e), "wrong-law", "errors within PSUs have sum of squares %.4g of %d expected" % (ss, df_e))
            elif op["icv"] == 0:
                mu = 1 / (1 + np.exp(-eta))
                for c in [np.ones(len(mu))] + [df[x].to_numpy() for x in info["xs"]]:
                    z = np.sum(c * (y - mu)) / np.sqrt(np.sum(c ** 2 * mu * (1 - mu)))
                    self.ok(abs(z) < 7.5, "wrong-law", "binary responses are %.1f standard deviations from their probabilities" % z)
        return how

    def adapter(self, op, pop):
        if op["adapter"] == "glm":
            return self.cd.GLMAdapter(pop.formula, self.f2.Binomial if op["pop"] == "binomial" else None)
        return self.cd.WLSAdapter(pop.formula)

    def factory(self, op, frames):
        def f(df):
            before = df.copy(deep=True)
            D = self.cd.SampleDesign(df, "strata", "psu", "w", singleton="aggregate")
            self.ok(before.equals(df), "caller-frame-changed", "SampleDesign changed the frame of a replicate")
            if op["sub"]:
                D = D.subset(D.df["x0"].to_numpy() > -0.8)
            frames.append(before)
            return D
        return f

    def row(self, op, info, df, b, V, what):
        """estimate and variance of one replicate from its frame"""
        X, y, w = self.design_matrix(info, df), df["y"].to_numpy(), df["w"].to_numpy(dtype=float)
        if op["sub"]:
            w = np.where(df["x0"].to_numpy() > -0.8, w, 0.0)
        logit = op["adapter"] == "glm" and op["pop"] == "binomial"
        G = X.T @ (w[:, None] * X)
        if not np.linalg.cond(G) < 1e8:
            self.ctx.count("probe:singular")
            return
        if logit:
            eta = X @ b
            if not np.all(np.isfinite(eta)) or np.abs(eta).max() > 10:
                self.ctx.count("probe:separated")
                return
            mu = 1 / (1 + np.exp(-eta))
            S, A = (w * (y - mu))[:, None] * X, X.T @ ((w * mu * (1 - mu))[:, None] * X)
            if np.linalg.cond(A) > 1e8:
                self.ctx.count("probe:singular")
                return
            step = np.linalg.solve(A, S.sum(0))
            self.near(step / (1 + np.abs(b)), 0 * b, "wrong-row", 2e-3, what + ": Newton step left at the estimate")
        else:
            want = np.linalg.solve(G, X.T @ (w * y))
            t = 1 + np.abs(want).max()
            tol = 1e-4 if op["adapter"] == "glm" else 1e-7
            self.near(b / t, want / t, "wrong-row", tol, what + ": estimate against weighted least squares on its frame")
            if op["adapter"] == "glm" and w @ (y - X @ want) ** 2 <= 1e-8 * (w @ y ** 2):
                self.ctx.count("probe:exact")                             # no residual to estimate a scale from
                return
            S, A = (w * (y - X @ b))[:, None] * X, G
        M = textbook(df["strata"].to_numpy(), df["psu"].to_numpy(), S, "aggregate")[0]
        Ai = np.linalg.inv(A)
        want = Ai @ M @ Ai
        t = np.abs(want).max() + 1e-12
        self.near(V / t, want / t, "wrong-row", 1e-5, what + ": variance against the textbook sandwich on its frame")

    def study(self, op, i, j, pop, info, adapter, frames, failing=None):
        calls = [0]
        fac = self.factory(op, frames)

        def factory(df):
            if failing and failing["kind"] == "design" and calls[0] == failing["k"]:
                raise Failed("design")
            return fac(df)

        class A:
            def fit(s, design):
                k = calls[0]
                calls[0] += 1
                if failing and failing["kind"] == "adapter" and k == failing["k"]:
                    raise Failed("adapter")
                return adapter.fit(design)
        return lambda gen: self.cd.replicate(pop, factory, A(), op["rep"], rng=gen, progress=False)

    def result(self, op, info, res, frames, gen, what):
        self.ctx.count("probe:judged")
        self.ok(res.params.shape == (op["rep"], len(info["beta"])) and res.Vs.shape == (op["rep"],) + (len(info["beta"]),) * 2 and len(frames) == op["rep"], "wrong-row",
                "%s: %d frames, estimates %s, variances %s" % (what, len(frames), res.params.shape, res.Vs.shape))
        twin = self.population(op)[0]
        for r, f in enumerate(frames):
            self.ok(f.equals(twin.draw(gen)), "not-its-own-draw", "%s: the frame of replicate %d is not the %dth draw of a generator in the same state" % (what, r, r))
            self.frame(op, info, f, "%s, replicate %d" % (what, r))
            self.row(op, info, f, res.params[r], res.Vs[r], "%s, replicate %d" % (what, r))
        self.near(res.theta_true, info["beta"], "wrong-summary", 0, "true parameters")
        P, V, th, n = res.params, res.Vs, info["beta"], op["rep"]
        if not np.all(np.isfinite(P)) or not np.all(np.isfinite(V)):
            return
        sd = np.sqrt(np.array([np.diag(v) for v in V]))
        self.near(res.bias(), P.mean(0) - th, "wrong-summary", 1e-9, "bias")
        z = (P - th) / sd
        fin = np.isfinite(z)
        self.near(res.z_scores()[fin], z[fin], "wrong-summary", 1e-8, "z scores")
        for alpha, c in ((0.05, 1.959963984540054), (0.5, 0.6744897501960817)):
            if np.all(np.abs(np.abs(z) - c) > 1e-9):
                self.near(res.coverage(alpha), np.mean(np.abs(z) < c, axis=0), "wrong-summary", 1e-12, "coverage")
        self.near(res.se_ana(), np.sqrt(np.diag(V.mean(0))), "wrong-summary", 1e-9, "analytical standard errors")
        if n > 1:
            e = np.sqrt(((P - P.mean(0)) ** 2).sum(0) / (n - 1))
            self.near(res.se_emp(), e, "wrong-summary", 1e-8, "empirical standard errors")
            s = res.summary()
            self.near(s["mean"], P.mean(0), "wrong-summary", 1e-9, "means of the summary")
            self.ok(list(s.index) == list(self.population(op)[0].parameter_names), "wrong-summary", "names of the summary")

    def op_study(self, op, i):
        pop, info = self.population(op)
        adapter = self.adapter(op, pop)
        seed = self.c["seed"] + i
        mk = lambda f=None: variates.VGen(seed, self.c["modes"], f and f["k"], f and faults.exc_type(f["kind"]))
        df_, rf, ft = op.get("drawfault"), op.get("repfault"), op.get("fault")
        how = "returned"
        try:
            if df_ or rf or ft:                                           # a study that fails, before the one that is judged
                run = self.study(op, i, 0, pop, info, adapter, [], rf)
                try:
                    if ft:
                        with faults.LineFault(self.root, ft["k"], ft["kind"]):
                            run(mk())
                    else:
                        run(mk(df_))
                except Failed:
                    how = "failed"
                    self.ctx.count("fault:replicate-" + rf["kind"])
                except BaseException as e:
                    if not faults.injected(e):
                        raise
                    how = "interrupted"
                    self.ctx.count("fault:" + (df_ or ft)["kind"])
            frames = []
            res = self.study(op, i, 0, pop, info, adapter, frames)(mk())
        except np.linalg.LinAlgError:
            self.ctx.count("probe:singular")
            return "singular"
        self.result(op, info, res, frames, mk(), "study")
        return how

    def op_pair(self, op, i):
        pop, info = self.population(op)
        adapter = self.adapter(op, pop)
        rf = op.get("repfault")
        outs = {}

        def body(j):
            def run(caller):
                frames = []
                g = variates.VGen(self.c["seed"] + i + 101 * j, self.c["modes"])
                f = self.study(op, i, j, pop, info, adapter, frames, rf if j == 0 else None)
                try:
                    outs[j] = (f(g), frames)
                except Failed:
                    outs[j] = None
                    self.ctx.count("fault:replicate-" + rf["kind"])
                except np.linalg.LinAlgError:
                    outs[j] = None
                    self.ctx.count("probe:singular")
                yield
            return run
        S = threads.Sched(self.root, op["sched"], op["gap"], trace=op["gap"] > 0)
        for j in range(op["studies"]):
            S.add(body(j))
        S.run()
        self.ctx.count("probe:switches", S.switches)
        for j in sorted(outs):
            if outs[j]:
                self.result(op, info, outs[j][0], outs[j][1], variates.VGen(self.c["seed"] + i + 101 * j, self.c["modes"]), "study %d of %d interleaved" % (j, op["studies"]))
        return "interleaved"


WORLD = W
