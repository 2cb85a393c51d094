"""C16: structural equation model evaluations against dense model-implied moments."""
import copy
import random
import warnings
import numpy as np
from ..core import World
from .. import faults, jitseam, semref

EVALS = ["fit_func", "fit_func_group", "gradient", "gradient_alt", "gradient_group", "gradient_alt_group", "hessian", "hessian_group",
         "dsigma_mu", "d2sigma_mu", "implied_cov_mean", "implied_stats", "gradient_obs", "loglike", "loglike_group", "loglike_obs",
         "std_errors", "robust_errors"]


def vech(S):
    p = S.shape[-1]
    return np.concatenate([S[..., j:, j] for j in range(p)], axis=-1)


def same(a, b):
    """the same frames, series and dictionaries of them"""
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a.equals(b)


class W(World):
    prop = "C16"
    technique = ("seeded simulation of evaluation histories on generated structural equation models (formula text, groups, sharing, equality "
                 "constraints), with exceptions injected at any executed line, caller arrays overwritten between calls and result arrays "
                 "scribbled on; refinement against implied moments computed by reticular action algebra from the parameter table")
    rule = ("a run builds one model and executes 2-9 evaluations or short fits at parameter vectors dealt by the seed, some failing part-way; "
            "non-trivial: at least one evaluation at a positive definite point was compared with the reference")
    states_measure = "distinct (call, groups, sharing, block kinds present, fault kind, outcome, point kind) tuples"
    real = ("pystatsm.pysem2 (formula, model builder, variable ordering, parameter table, indexers, model data, specification, "
            "derivatives, SEM)",)
    stub = ("the numba derivative kernels run as the Python source they are compiled from, one step each for the fault injector",)
    assumptions = ("a point where an implied covariance is not positive definite is executed but its answer is not judged",
                   "which loading is the fixed marker and which exogenous moments are fixed are read from the parameter table and its "
                   "fixed values are compared with the formula and the sample moments")
    quick_runs, thorough_runs = 1200, 40000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        import pandas as pd
        import pystatsm.pysem2.sem as semmod
        SEM = semmod.SEM
        from pystatsm.pysem2.model_data import ModelData
        import pystatsm.pysem2.derivatives as derivatives
        jitseam.interpret(derivatives, semmod)
        self.pd, self.SEM, self.ModelData = pd, SEM, ModelData
        for s in range(3):
            m = self.build(dict(self.gen(random.Random(s), "quick")["config"], source="frame"))[0]
            for f in (m.fit_func, m.gradient, m.hessian, m.dsigma_mu, m.d2sigma_mu, m.gradient_obs, m.loglike):
                f(m.theta)
            m.gradient(m.theta, method=1)

    def gen(self, r, tier):
        c = dict(spec=semref.gen_spec(r), fseed=r.randrange(1 << 30), seed=r.randrange(1 << 30), G=r.choice([1, 1, 2, 3]),
                 shared=[r.random() < 0.5 for _ in range(6)], extra=r.choice([0, 0, 1, 2]), glabel=r.choice(["int", "str", "gap"]),
                 index=r.choice(["range", "shuffled", "offset"]), uneven=r.random() < 0.5, default_shared=r.random() < 0.3,
                 source="frame" if r.random() < 0.85 else r.choice(["stats", "stats-single"]))
        ops = [self.gen_op(r, tier) for _ in range(r.randrange(2, 10))]
        return dict(config=c, ops=ops)

    def gen_op(self, r, tier):
        if r.random() < 0.08:
            op = dict(op="fit", hess=r.random() < 0.7, robust=r.random() < 0.3, iters=r.choice([1, 3, 10, 30]), init=r.random() < 0.4)
        else:
            op = dict(op=r.choice(EVALS))
        op.update(tseed=r.choice([1, 2, 3]) if r.random() < 0.4 else r.randrange(1 << 30), point=r.choice(["near", "near", "near", "start", "wild"]),
                  scribble=r.random() < 0.3, smash=r.random() < 0.3)
        if r.random() < 0.3:
            op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 9 if op["op"] != "fit" else 12)))
        return op

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("G", 1), ("source", "frame"), ("extra", 0), ("index", "range"), ("uneven", False), ("glabel", "int")):
            if c[k] != v:
                yield dict(sc, config=dict(c, **{k: v}))
        for key in ("mean", "cov", "reg", "load"):
            for i in range(len(c["spec"][key])):
                sp = dict(c["spec"], **{key: c["spec"][key][:i] + c["spec"][key][i + 1:]})
                if sp["load"] or sp["reg"]:
                    yield dict(sc, config=dict(c, spec=sp))

    # ------------------------------------------------------------------ build
    def build(self, c):
        pd, spec = self.pd, c["spec"]
        obs = semref.observed(spec)
        g = np.random.default_rng(c["seed"])
        k, G = len(obs), c["G"]
        n = 12 * G + 4 * k * G + int(g.integers(0, 12))
        M = g.normal(size=(k, k)) * 0.4 + np.eye(k)
        df = pd.DataFrame(g.normal(size=(n, k)) @ M.T + g.normal(size=k), columns=obs)
        for j in range(c["extra"]):
            df.insert(int(g.integers(0, df.shape[1] + 1)), "w%d" % j, g.normal(size=n) * 5 + 3)
        gi = np.zeros(n, int)
        kws = None
        if G > 1:
            gi = np.arange(n) % G
            if c["uneven"]:
                gi[: n // 3] = 0
            g.shuffle(gi)
            lab = dict(int=np.arange(G), gap=np.array([3, 7, 1])[:G], str=np.array(["b", "a", "zz"])[:G])[c["glabel"]]
            gi = np.argsort(np.argsort(lab))[gi]                     # groups are numbered in label order
            df["grp"] = np.sort(lab)[gi]
            kws = dict(group_col="grp") if c["default_shared"] else dict(group_col="grp", shared=list(c["shared"]))
        if c["index"] == "shuffled":
            df.index = g.permutation(n)
        elif c["index"] == "offset":
            df.index = np.arange(n) + 100
        shared = [True] * 6 if G == 1 or c["default_shared"] else c["shared"]
        self.stats = None
        if c["source"] != "frame":
            parts = [df.drop(columns="grp", errors="ignore")[gi == k] for k in range(G)]
            covs, means, ns = {}, {}, {}
            for k, d in enumerate(parts):
                covs[k], means[k], ns[k] = d.cov(ddof=0), d.mean(), len(d)
            if G == 1 and c["source"] == "stats-single":
                covs, means, ns = covs[0], means[0], ns[0]
            self.stats = (covs, means)
            self.stats_copy = copy.deepcopy(self.stats)
            kws = {k: v for k, v in (kws or {}).items() if k != "group_col"}
            kws["model_data"] = self.ModelData.from_samplestats(covs, means, ns)
        text = semref.formula(spec, random.Random(c["fseed"]))
        return self.SEM(text, df if self.stats is None else None, model_spec_kws=kws), df, gi, obs, shared, text

    def reference(self, ctx, c, m, df, gi, obs, shared):
        """parameter table -> rows of the reference, after checking the table against the specification"""
        spec, G = c["spec"], c["G"]
        names = [str(x) for x in m.theta_names]
        ctx.check(len(set(names)) == len(names) == len(m.theta), "parameters-not-distinct", lambda: str(names))
        pt = m.get_table()
        Ys = [df.loc[(gi == g), obs].values for g in range(G)]
        Ss, ms = [np.cov(Y.T, bias=True).reshape(len(obs), -1) for Y in Ys], [Y.mean(0) for Y in Ys]
        rows, index = [], {}
        for g in range(G):
            for _, x in pt[pt["group"] == g].iterrows():
                if x["lhs"] == x["rhs"] and x["rel"] == "=~":
                    continue
                lab = x["mod"]
                lab = None if lab is None or lab != lab else str(lab)
                ti = val = None
                if x["free"] != 0:
                    nm = " ".join([x["lhs"], x["rel"], x["rhs"]]) if lab is None else lab
                    if not shared[int(x["mat"])]:
                        nm = "%d %s" % (g, nm)
                    ctx.check(nm in names, "parameter-missing", lambda: "%s not among %s" % (nm, names))
                    ti = names.index(nm)
                else:
                    val = float(x["fixedval"])
                rows.append((g, x["lhs"], x["rel"], x["rhs"], val, ti))
                index[(g, x["rel"], x["lhs"], x["rhs"])] = (val, ti, lab)
        ends = {a[0] for a in spec["reg"]} | {a[1] for a in spec["load"]}
        for g in range(G):
            for key, rel in (("load", "=~"), ("reg", "~"), ("cov", "~~"), ("mean", "~")):
                for e in spec[key]:
                    l, h, mod = e if len(e) == 3 else (e[0], "1", e[1])
                    got = index.get((g, rel, l, h)) or (index.get((g, rel, h, l)) if rel == "~~" else None)
                    ctx.check(got is not None, "relation-missing", lambda: "group %d: %s %s %s is in the formula, not in the table" % (g, l, rel, h))
                    if isinstance(mod, float):
                        ctx.check(got[1] is None and got[0] == mod, "fixed-value-wrong", lambda: "%s %s %s: %s" % (l, rel, h, got))
                    elif mod is not None:
                        ctx.check(got[1] is not None and got[2] == mod, "label-wrong", lambda: "%s %s %s: %s" % (l, rel, h, got))
            for (gg, rel, l, h), (val, ti, lab) in index.items():
                if gg == g and val is not None and l[0] == "x" and l in obs and l not in ends:
                    if rel == "~~" and h in obs and h not in ends:
                        want = Ss[g][obs.index(l), obs.index(h)]
                    elif rel == "~" and h == "1" and not any(e[0] == l for e in spec["mean"]):
                        want = ms[g][obs.index(l)]
                    else:
                        continue
                    ctx.close(val, want, "exogenous-moment-wrong", 1e-10, 1e-12, "group %d %s %s %s" % (g, l, rel, h))
        return semref.Ram(rows, obs, G), names, Ys, Ss, ms

    # ------------------------------------------------------------------ run
    def execute(self, sc, ctx):
        c = sc["config"]
        m, df, gi, obs, shared, text = self.build(c)
        snap, G = df.copy(deep=True), c["G"]
        order = list(m.model_data.sample_cov_df[0].columns)
        ctx.check(sorted(order) == obs, "variables-wrong", lambda: "%s, formula has %s" % (order, obs))
        ram, names, Ys, Ss, ms = self.reference(ctx, c, m, df, gi, obs, shared)
        perm = [obs.index(v) for v in order]                     # model order -> reference order
        n = len(df)
        w = np.array([np.sum(gi == k) for k in range(G)])
        kinds = "".join(k[0] for k in ("load", "reg", "cov", "mean") if c["spec"][k])
        free = [m.free_df[m.free_df["group"] == g][["lhs", "rel", "rhs"]].values.tolist() for g in range(G)]
        gindex = [np.flatnonzero(gi == k) for k in range(G)]
        gcell = []
        for g in range(G):
            rr = [x for x in ram.rows if x[0] == g]
            gcell.append([next(i for i, x in enumerate(rr) if [x[1], x[2], x[3]] == f) for f in free[g]])
        start = np.array(m.theta, float)
        buf = start.copy()
        for op in sc["ops"]:
            if self.stats is not None and (op["op"] in ("gradient_obs", "loglike", "loglike_group", "loglike_obs", "robust_errors") or op.get("robust")):
                continue                                              # these need the observations
            th = self.point(op, start, names)
            k = op["op"]
            ctx.count("op:" + k)
            arg = th.copy()
            if op["tseed"] % 2:                                           # the caller updates its own array in place between calls
                buf[...] = th
                arg = buf
            f = op.get("fault")
            out = err = lf = None
            call = self.caller(m, op, arg)
            try:
                if f:
                    with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                        out = call()
                else:
                    out = call()
            except BaseException as e:
                if faults.injected(e):
                    ctx.count("fault:" + f["kind"])
                elif not isinstance(e, (np.linalg.LinAlgError, ValueError)):
                    raise
                err = e
            else:
                if lf and lf.fired:
                    ctx.count("fault:" + f["kind"])
                    ctx.count("probe:fault-absorbed")
            ctx.check(np.array_equal(arg, th), "theta-changed", "%s changed the parameter vector it was given" % k)
            if self.stats is not None:
                ctx.check(same(self.stats, self.stats_copy), "data-changed", "the sample statistics passed in were changed")
            ctx.check(df.equals(snap), "data-changed", "%s changed the data frame" % k)
            at = th
            if k == "fit" and err is None:
                at = np.array(m.theta, float)
            mom = ram.implied(at)
            pd_ok = all(np.all(np.isfinite(S)) and np.linalg.eigvalsh(S)[0] > 1e-4 * max(1.0, np.abs(S).max()) for S, _ in mom)
            ctx.event(k, type(err).__name__, pd_ok)
            ctx.state(k, G, "".join("01"[s] for s in shared) if G > 1 else "-", kinds, (f or {}).get("kind", ""), type(err).__name__,
                      op["point"] if pd_ok else "notpd")
            if err is not None:
                ctx.check(faults.injected(err) or not pd_ok or k in ("fit", "std_errors", "robust_errors"), "evaluation-failed",
                          lambda: "%s raised %r at a positive definite point" % (k, err))
                continue
            if pd_ok:
                self.judge(ctx, m, op, at, out, ram, perm, names, Ys, Ss, ms, w, n, gindex, gcell, mom)
                ctx.steps += 1
            else:
                ctx.count("probe:not-positive-definite")
            if op["scribble"]:
                for a in (out if isinstance(out, tuple) else (out,)):
                    if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable:
                        a[...] = 7.25
            if op["smash"]:
                arg[...] = -3.5

    def point(self, op, start, names):
        g = np.random.default_rng(op["tseed"])
        if op["point"] == "start":
            return start.copy()
        th = start + g.normal(size=len(start)) * (0.15 if op["point"] == "near" else 1.0)
        for k, nm in enumerate(names):
            q = nm.split(" ~~ ")
            if len(q) == 2 and q[0].split()[-1] == q[1] or nm.split()[-1] == "va":
                th[k] = (1.2 + g.uniform()) if op["point"] == "near" else np.exp(g.normal())
        return th

    def caller(self, m, op, th):
        k = op["op"]
        if k == "fit":
            def run():
                kw = dict(use_hess=op["hess"], robust_se=op["robust"], minimize_options=dict(maxiter=op["iters"], verbose=0))
                if op["init"]:
                    kw["theta_init"] = th
                m.fit(**kw)
            return run
        if k.endswith("_group") and k != "loglike_group":
            base = k[:-6]
            if base == "gradient_alt":
                return lambda: m.gradient(th, per_group=True, method=1)
            return lambda: getattr(m, base)(th, per_group=True)
        return {"fit_func": lambda: m.fit_func(th), "gradient": lambda: m.gradient(th), "gradient_alt": lambda: m.gradient(th, method=1),
                "hessian": lambda: m.hessian(th), "dsigma_mu": lambda: m.dsigma_mu(th), "d2sigma_mu": lambda: m.d2sigma_mu(th),
                "implied_cov_mean": lambda: m.implied_cov_mean(th), "implied_stats": lambda: m.implied_sample_stats(th),
                "gradient_obs": lambda: m.gradient_obs(th), "loglike": lambda: m.loglike(th), "loglike_group": lambda: m.loglike(th, "group"),
                "loglike_obs": lambda: m.loglike(th, "observation"), "std_errors": lambda: m.get_standard_errors(th),
                "robust_errors": lambda: m.get_standard_errors(th, robust=True)}[k]

    def judge(self, ctx, m, op, th, out, ram, perm, names, Ys, Ss, ms, w, n, gindex, gcell, mom):
        k, G = op["op"], len(Ys)
        small = min(np.linalg.eigvalsh(S)[0] / max(1.0, np.abs(S).max()) for S, _ in mom)
        loose = max(1.0, 0.01 / small)

        def close(got, want, what, rt=1e-7):
            s = 1.0 + np.max(np.abs(want)) if np.size(want) else 1.0
            ctx.close(np.asarray(got) / s, np.asarray(want) / s, k + "-wrong", rt * loose, rt * loose * 1e-2, what)

        def Fg(t, g):
            S, mu = ram.moments(ram.cells(t, g), g)
            return w[g] / 2 * semref.group_f(S, mu, Ss[g], ms[g])

        def F(t):
            return sum(Fg(t, g) for g in range(G))

        def L(t):
            o = np.zeros(t.shape[:-1] + (n,), complex if np.iscomplexobj(t) else float)
            for g in range(G):
                o[..., gindex[g]] = semref.obs_nll(*ram.moments(ram.cells(t, g), g), Ys[g])
            return o

        def stats(cells, g):
            S, mu = ram.moments(cells, g)
            S, mu = S[..., perm, :][..., perm], mu[..., perm]
            return np.concatenate([vech(S), mu], axis=-1)
        if k == "fit_func":
            close(out, F(th), "discrepancy")
        elif k == "fit_func_group":
            close(out, [Fg(th, g) for g in range(G)], "discrepancy per group")
        elif k in ("gradient", "gradient_alt"):
            close(out, semref.cstep(F, th), "gradient", 1e-6)
        elif k in ("gradient_group", "gradient_alt_group"):
            close(out, np.stack([semref.cstep(lambda t: Fg(t, g), th) for g in range(G)]), "gradient per group", 1e-6)
        elif k == "hessian":
            close(out, semref.hess(F, th), "Hessian", 1e-5)
        elif k == "hessian_group":
            close(out, np.stack([semref.hess(lambda t: Fg(t, g), th) for g in range(G)]), "Hessian per group", 1e-5)
        elif k in ("dsigma_mu", "d2sigma_mu"):
            ctx.check(np.shape(out)[0] == G, k + "-wrong", lambda: "shape %s" % (np.shape(out),))
            for g in range(G):
                cells, ix = ram.cells(th, g), gcell[g]

                def f(x):
                    z = np.repeat(cells.astype(x.dtype)[None], len(x), axis=0)
                    z[:, ix] = x
                    return stats(z, g)
                want = semref.cstep(f, cells[ix]) if k == "dsigma_mu" else semref.hess(f, cells[ix])
                close(out[g], want, "%s of group %d" % (k, g), 1e-7 if k == "dsigma_mu" else 1e-5)
        elif k == "implied_cov_mean":
            ctx.check(len(out) == 2 and len(out[0]) == G, k + "-wrong", "not (covariances, means)")
            for g in range(G):
                close(out[0][g], mom[g][0][np.ix_(perm, perm)], "implied covariance", 1e-9)
                close(out[1][g], mom[g][1][perm], "implied mean", 1e-9)
        elif k == "implied_stats":
            close(out, np.stack([stats(ram.cells(th, g), g) for g in range(G)]), "implied statistics", 1e-9)
        elif k == "gradient_obs":
            close(out, semref.cstep(L, th), "gradient per observation", 1e-6)
        elif k == "loglike":
            close(out, L(th).sum(), "log-likelihood")
        elif k == "loglike_group":
            close(out, [L(th)[gindex[g]].sum() for g in range(G)], "log-likelihood per group")
        elif k == "loglike_obs":
            close(out, L(th), "log-likelihood per observation")
        elif k in ("std_errors", "robust_errors", "fit"):
            H = semref.hess(F, th)
            ev = np.linalg.eigvalsh(H)
            if ev[0] <= 1e-5 * ev[-1]:
                ctx.count("probe:information-singular")
                return
            V = np.linalg.inv(H)
            if k == "robust_errors" or (k == "fit" and op["robust"]):
                Gm = semref.cstep(L, th)
                V = V @ Gm.T @ Gm @ V
            se = np.sqrt(np.diag(V))
            rt = 1e-4 * max(1.0, 1e-3 * ev[-1] / ev[0])
            if k != "fit":
                close(out, se, "standard errors", rt)
                return
            res = m.res
            close(res.iloc[:, 0].values, th, "reported estimates")
            close(res.iloc[:, 1].values, se, "reported standard errors", rt)
            ctx.check([str(x) for x in res.index] == names, "fit-wrong", "rows of the result table")
            for g in range(G):
                Lm, Bm, Fm, Pm, am, bm = [m.mats[g][j].values for j in range(6)]
                E = Lm @ np.linalg.inv(np.eye(len(Bm)) - Bm)
                close(E @ Fm @ E.T + Pm, mom[g][0][np.ix_(perm, perm)], "moments of the reported matrices")


WORLD = W
