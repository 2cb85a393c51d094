"""C04: Gibbs chains of MixedMCMC under dealt draws, stopped runs and disturbed global random states."""
import types
import warnings
import numpy as np
import pandas as pd
import scipy.stats as st
import scipy.linalg as la
from ..core import World
from .. import faults, variates, jitcache, zoo

KS = 3.7
FAMS = ("normal", "bernoulli", "binomial", "ordinal_probit")
COL = dict(normal="y", bernoulli="b", binomial="k", ordinal_probit="o")


class Failed(Exception):
    pass


class Gen(variates.VGen):
    """exponential draws stay ordinary: slices at a point of probability zero are not reached by any real stream"""

    def exponential(self, scale=1.0, size=None):
        return variates.VGen.deal(self, "exponential", self.g.standard_exponential(np.shape(scale) or None if size is None else size)) * scale


def arviz_stub():
    def from_dict(d, *a, **k):
        return d

    def summary(data, *a, **k):
        rows = {"%s[%d]" % (name, j): x[..., j].ravel() for name, x in data.items() for j in range(x.shape[-1])}
        f = lambda g: [g(v) for v in rows.values()]
        return pd.DataFrame(dict(mean=f(np.mean), sd=f(np.std), r_hat=f(lambda v: 1.0)), index=list(rows))
    return types.SimpleNamespace(from_dict=from_dict, summary=summary)


class W(World):
    prop = "C04"
    technique = ("seeded simulation of Gibbs chains: the simulator deals the generator's draws (ordinary, extreme, repeated), makes a draw fail, interrupts executed lines and disturbs the global random states between "
                 "transitions; each transition is judged against its conditional distribution and the recorded chain against the states it was saved from")
    rule = ("a run builds one sampler on drawn data and makes 1-4 steps: a transition judged alone (exact mean and covariance, density ratio, slice, or law of the draws), or a chain; non-trivial: at least one transition or chain was judged")
    states_measure = "distinct (response, formula, step, draw modes, fault kind, outcome) tuples"
    real = ("pystatsm.pylmm.glmm_mcmc.MixedMCMC", "pystatsm.pylmm.lmm", "pystatsm.utilities.random kernels (compiled)", "CHOLMOD and LAPACK factorisations")
    stub = ("random numbers drawn in Python (dealt by the simulator)", "arviz: the installed release does not accept the dictionaries passed to it; a stand-in takes means and standard deviations")
    assumptions = ("draws inside compiled kernels are ordinary draws of the generator given", "samples of a bernoulli chain are rescaled by one constant", "the law of draws is judged by a Kolmogorov distance whose excess has probability 3e-12",
                   "degrees of freedom are those of wishart_info and the priors the model holds")
    quick_runs, thorough_runs = 1200, 60000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        jitcache.enable(self.root[: -len("pystatsm/")])
        import pystatsm.pylmm.glmm_mcmc as g
        self.g = g
        g.az = arviz_stub()
        g.tqdm = types.SimpleNamespace(tqdm=Bar)
        for fam in FAMS:
            m, _ = self.make(dict(seed=1, fam=fam, terms=0, groups=4, n=24))
            m.rng = np.random.default_rng(0)
            m.sample(n_samples=4, n_chains=1, burnin=0)

    FORMULAS = ("1+x+(1|h)", "1+x+(1+x|h)", "1+(1+z|h)", "1+x+(1|h)+(1|q)", "1+z+(1+x|h)+(1|q)", "1+x+z+(1+x+z|h)")

    def make(self, c):
        a = np.random.default_rng(c["seed"])
        n, q = c["n"], c["groups"]
        df = pd.DataFrame(dict(x=a.normal(size=n), z=a.normal(size=n)))
        df["h"] = a.permutation(np.arange(n) % q)
        df["q"] = a.permutation(np.arange(n) % 3)
        eta = 0.5 * df.x + a.normal(size=q)[df.h]
        df["y"] = eta + a.normal(size=n)
        df["b"] = (df.y > df.y.median()).astype(float)
        df["k"] = a.binomial(8, 1 / (1 + np.exp(-eta))) / 8.0
        o = np.digitize(df.y, np.quantile(df.y, [0.25, 0.5, 0.8][: 2 + c["seed"] % 2]))
        df["o"] = o.astype(float)
        kw = dict(weights=np.full(n, 8.0)) if c["fam"] == "binomial" else {}
        if c.get("priors"):
            k = self.FORMULAS[c["terms"]].count("(")
            m = self.g.MixedMCMC(COL[c["fam"]] + "~" + self.FORMULAS[c["terms"]], df, c["fam"])
            kw["priors"] = {i: dict(V=np.eye(m.random_effects.n_rvars[i]) * 0.7 + 0.1, n=5 + i) for i in range(k)}
            kw["priors"]["R"] = dict(V=1.5, n=3)
        if c.get("freeR") is not None:
            kw["freeR"] = c["freeR"]
        return self.g.MixedMCMC(COL[c["fam"]] + "~" + self.FORMULAS[c["terms"]], df, c["fam"], rng=np.random.default_rng(c["seed"]), **kw), df

    def gen(self, r, tier):
        c = dict(seed=r.randrange(1 << 30), fam=r.choice(FAMS), terms=r.randrange(len(self.FORMULAS)), groups=r.choice([3, 5, 8]), n=r.choice([24, 30, 45]), priors=r.random() < 0.4,
                 freeR=r.choice([None, None, True, False]))
        own = dict(normal=[], bernoulli=["slice"] * 3, binomial=["mh"] * 3, ordinal_probit=["tau"] * 3 + ["cats"] * 2)[c["fam"]]
        ops = []
        for _ in range(r.choice([1, 2, 3, 4])):
            op = dict(op=r.choice(["run"] * 5 + ["location"] * 2 + ["gcov", "rcov", "poisson"] + own), s=r.randrange(1 << 20))
            if op["op"] == "run":
                op.update(n=r.choice([3, 5, 8, 14]), chains=r.choice([1, 2, 3]), burn=r.choice([0, 1, 2]), u=r.random() < 0.6, pred=r.random() < 0.6, lvar=r.random() < 0.6, judge=r.choice(["twin", "twin", "chain"]))
                x = r.random()
                if x < 0.35:
                    op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 11)))
                elif x < 0.5:
                    op["drawfault"] = dict(kind=r.choice(["interrupt", "memory"]), k=r.randrange(1, 40))
            elif r.random() < 0.15:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 5)))
            ops.append(op)
        modes = [r.choice(["iid", "tails", "lower", "upper", "repeat"]) if r.random() < 0.3 else "iid" for _ in range(r.choice([1, 2, 3]))]
        return dict(config=dict(c, modes=modes), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("modes", ["iid"]), ("priors", False), ("freeR", None), ("terms", 0), ("groups", 3), ("n", 24)):
            if c[k] != v:
                yield dict(sc, config=dict(c, **{k: v}))
        for i, op in enumerate(sc["ops"]):
            for k, v in (("n", 3), ("n", 5), ("chains", 1), ("burn", 0), ("u", False), ("pred", False), ("lvar", False)):
                if k in op and op[k] != v and (not isinstance(v, int) or op[k] > v):
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])

    def nontrivial(self, sc, res):
        return res["counts"].get("probe:judged", 0) > 0

    def execute(self, sc, ctx):
        self.ctx, self.c = ctx, sc["config"]
        self.m, self.df = self.make(self.c)
        self.X, self.Z = np.asarray(self.m.X, float), self.m.Z.toarray()
        for i, op in enumerate(sc["ops"]):
            ctx.count("op:" + op["op"])
            ctx.steps += 1
            how = zoo.quiet(lambda: getattr(self, "op_" + op["op"])(op, np.random.default_rng(op["s"] + i)))
            ctx.event(op["op"], how)
            f = op.get("fault") or op.get("drawfault") or {}
            ctx.state(self.c["fam"], self.c["terms"], op["op"], "".join(sorted(set(x[0] for x in self.c["modes"]))), f.get("kind"), how)

    # ------------------------------------------------------------------ helpers
    def near(self, x, y, kind, tol=1e-8, what=""):
        self.ctx.close(np.asarray(x, float), np.asarray(y, float), kind, rtol=tol, atol=tol, what=what)

    def ok(self, c, kind, what):
        self.ctx.check(bool(c), kind, what)

    def law(self, x, cdf, name):
        x = np.sort(np.asarray(x, float).ravel())
        n = len(x)
        F = cdf(x)
        D = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
        self.ok(np.all(np.isfinite(x)) and np.sqrt(n) * D < KS, "wrong-law", "%s: Kolmogorov distance %.3g over %d draws" % (name, D, n))

    def attempt(self, op, f):
        ft = op.get("fault")
        if ft:
            with faults.LineFault(self.root, ft["k"], ft["kind"]) as lf:
                try:
                    f()
                except BaseException as e:
                    if not (faults.injected(e) or lf.fired):
                        raise
                    self.ctx.count("fault:" + ft["kind"])
        self.ctx.count("probe:judged")
        return f()

    def theta(self, a, s2=None):
        m = self.m
        t = np.zeros(len(m.t_init))
        for i in range(m.levels):
            k = m.random_effects.n_rvars[i]
            B = a.normal(size=(k, k + 2))
            t[m.t_inds[i]] = (B @ B.T / (k + 2) * a.uniform(0.2, 2))[np.tril_indices(k)] if k == 1 else self.vech(B @ B.T / (k + 2) * a.uniform(0.2, 2))
        t[-1] = a.uniform(0.3, 2) if s2 is None else s2
        return t

    @staticmethod
    def vech(S):
        return np.concatenate([S[j:, j] for j in range(len(S))])

    def blocks(self, t):
        m, out = self.m, []
        for i in range(m.levels):
            k = m.random_effects.n_rvars[i]
            S = np.zeros((k, k))
            v, p = t[m.t_inds[i]], 0
            for j in range(k):
                S[j:, j] = S[j, j:] = v[p:p + k - j]
                p += k - j
            out.append(S)
        return out

    def Ginv(self, t):
        m = self.m
        return la.block_diag(*[np.kron(np.eye(m.random_effects.group_sizes[i]), np.linalg.inv(S)) for i, S in enumerate(self.blocks(t))])

    def precision(self, t):
        Wd = np.hstack([self.X, self.Z])
        M = Wd.T @ Wd / t[-1]
        p = self.X.shape[1]
        M[p:, p:] += self.Ginv(t)
        return Wd, M

    # ------------------------------------------------------------------ transitions on their own
    def op_location(self, op, a):
        """location effects: linear in the normal draws, mean and covariance those of the posterior given theta"""
        m, t = self.m, self.theta(a)
        y = a.normal(size=m.n_ob) * 2
        Wd, M = self.precision(t)
        if np.linalg.cond(M) > 1e9:
            return "ill-conditioned"
        t0, y0 = t.copy(), y.copy()
        f = lambda x1, x2: np.asarray(m.sample_location(t, x1, x2, y), float)
        q, n = m.n_re, m.n_ob
        mean = self.attempt(op, lambda: f(np.zeros(q), np.zeros(n)))
        self.near(mean, np.linalg.solve(M, Wd.T @ y / t[-1]), "wrong-transition", 1e-7, "mean of the location effects")
        J = np.array([f(e[:q], e[q:]) - mean for e in np.eye(q + n)])
        self.near(J.T @ J, np.linalg.inv(M), "wrong-transition", 1e-7, "covariance of the location effects")
        x = a.normal(size=q + n) * 2
        self.near(f(x[:q], x[q:]), mean + x @ J, "wrong-transition", 1e-7, "location effects at a drawn point")
        self.ok(np.array_equal(t, t0) and np.array_equal(y, y0), "input-changed", "sample_location changed theta or y")
        return "judged"

    def op_gcov(self, op, a):
        m = self.m
        i = op["s"] % m.levels
        k = m.random_effects.n_rvars[i]
        t = self.theta(a)
        u = a.normal(size=m.n_re) * a.uniform(0.3, 2)
        start = sum(m.random_effects.n_rvars[j] * m.random_effects.group_sizes[j] for j in range(i))
        U = u[start:start + k * m.random_effects.group_sizes[i]].reshape(-1, k)
        S = U.T @ U + m.priors[i]["V"]
        df = m.wsinfo[i]["nu"] + m.priors[i]["n"]
        x = a.normal(size=k)
        stat, m.rng = [], np.random.default_rng(op["s"])

        def draw():
            return np.asarray(m.sample_gcov(t.copy(), u.copy(), i), float)
        self.attempt(op, draw)
        for _ in range(250):
            new = draw()
            G = self.blocks(new)[i]
            stat.append((x @ S @ x) / (x @ G @ x))
            keep = np.ones(len(t), bool)
            keep[m.t_inds[i]] = False
            self.ok(np.array_equal(new[keep], t[keep]), "wrong-transition", "sampling covariance block %d changed another parameter" % i)
        self.law(stat, st.chi2(df - k + 1).cdf, "covariance block %d of size %d" % (i, k))
        return "judged"

    def op_rcov(self, op, a):
        m, t = self.m, self.theta(a)
        y, yh = a.normal(size=m.n_ob) * 1.7, a.normal(size=m.n_ob)
        m.rng = np.random.default_rng(op["s"])
        sse = np.sum((y - yh) ** 2) + m.priors["R"]["V"]
        df = m.wsinfo["r"]["nu"] + m.priors["R"]["n"]
        draw = lambda: np.asarray(m.sample_rcov(t.copy(), y, yh), float)
        self.attempt(op, draw)
        D = np.array([draw() for _ in range(300)])
        self.ok(np.all(D[:, :-1] == t[:-1]), "wrong-transition", "sampling the residual variance changed another parameter")
        self.law(sse / D[:, -1], st.chi2(df).cdf, "residual variance")
        return "judged"

    def mh(self, name, a, ll, op):
        m = self.m
        n = m.n_ob
        pred, s, z = a.normal(size=n), a.uniform(0.4, 1.6), a.normal(size=n)
        step, lu, C = a.normal(size=n), np.log(a.uniform(size=n)), a.uniform(0.1, 2)
        zp = z + step * C
        d = (ll(zp) - zp * 0) - ll(z) - ((zp - pred) ** 2 - (z - pred) ** 2) / (2 * s * s)
        got, acc = self.attempt(op, lambda: getattr(m, name)(pred.copy(), s, z.copy(), step, lu, C))
        clear = np.abs(d - lu) > 1e-8 * (1 + np.abs(d))
        self.ok(np.array_equal(np.asarray(acc)[clear], (d > lu)[clear]), "wrong-transition", "%s accepts where the density ratio does not" % name)
        self.near(np.asarray(got)[clear], np.where(d > lu, zp, z)[clear], "wrong-transition", 1e-10, name)
        return "judged"

    def op_mh(self, op, a):
        y, w = np.asarray(self.m.y, float), np.asarray(self.m.weights, float)
        return self.mh("mh_lvar_binomial", a, lambda z: w * (y * z - np.logaddexp(0, z)), op)

    def op_poisson(self, op, a):
        m = self.m
        old = m.y
        m.y = a.poisson(2.0, size=m.n_ob).astype(float)
        try:
            return self.mh("mh_lvar_poisson", a, lambda z: m.y * z - np.exp(z), op)
        finally:
            m.y = old

    def op_slice(self, op, a):
        """given the exponential draw the new value is normal, truncated to the slice of the logistic likelihood"""
        m, t = self.m, self.theta(a)
        n, y = m.n_ob, np.asarray(m.y, float)
        m.rng = np.random.default_rng(op["s"])
        pit = []
        for j in range(6):
            pred, z, e = a.normal(size=n) * 1.5, a.normal(size=n) * 1.5, a.exponential(size=n) + 1e-9
            got = self.attempt(op if j == 0 else {}, lambda: np.array(m.slice_sample_lvar(e.copy(), np.zeros(n), z.copy(), t.copy(), pred.copy()), float))
            h = np.where(y == 1, -np.logaddexp(0, -z), -np.logaddexp(0, z)) - e                 # height of the slice on the log scale
            b = h - np.log(-np.expm1(h))                                                        # logit of it
            lo, hi = np.where(y == 1, b, -200.0), np.where(y == 1, 200.0, -b)
            self.ok(np.all((got >= lo - 1e-9) & (got <= hi + 1e-9)), "wrong-transition", "a latent value lies outside its slice")
            s = np.sqrt(t[-1])
            A, B = (lo - pred) / s, (hi - pred) / s
            pit.append(st.truncnorm.cdf((got - pred) / s, A, B))
        self.law(np.concatenate(pit), st.uniform.cdf, "latent values within their slices")
        return "judged"

    def op_cats(self, op, a):
        m, t = self.m, self.theta(a)
        n, y = m.n_ob, np.asarray(m.y, float)
        m.rng = np.random.default_rng(op["s"])
        pit = []
        for j in range(6):
            pred = a.normal(size=n)
            tau = np.cumsum(a.uniform(0.2, 1.2, size=m.n_thresh))
            cut = np.r_[-np.inf, tau, np.inf]
            got = self.attempt(op if j == 0 else {}, lambda: np.array(m.mh_lvar_ordinal_probit(t.copy(), tau.copy(), pred.copy(), np.zeros(n)), float))
            lo, hi = cut[y.astype(int)], cut[y.astype(int) + 1]
            self.ok(np.all((got >= lo - 1e-9) & (got <= hi + 1e-9)), "wrong-transition", "a latent value lies outside its category")
            s = np.sqrt(t[-1])
            pit.append(st.truncnorm.cdf((got - pred) / s, (lo - pred) / s, (hi - pred) / s))
        self.law(np.concatenate(pit), st.uniform.cdf, "latent values within their categories")
        return "judged"

    def op_tau(self, op, a):
        """thresholds: a random walk on log gaps, accepted with the ratio of the category likelihoods"""
        m, t = self.m, self.theta(a)
        y = np.asarray(m.y, float).astype(int)
        for j in range(6):
            pred, tau, C = a.normal(size=m.n_ob), np.cumsum(a.uniform(0.4, 1.2, size=m.n_thresh)), a.uniform(0.02, 0.4)
            g = Recorder(op["s"] * 7 + j)
            m.rng = g
            new, acc = self.attempt(op if j == 0 else {}, lambda: (g.reset(), m.sample_tau(t.copy(), tau.copy(), pred.copy(), np.zeros(m.n_ob), C))[1])
            nrm, uni = [v for k, v in g.drawn if k == "normal" and np.size(v) == m.n_thresh], [v for k, v in g.drawn if k in ("uniform", "random") and np.size(v) == 1]
            if len(nrm) != 1 or len(uni) != 1:
                self.ctx.count("probe:other-draws")
                continue
            prev = np.log(np.r_[tau[0], np.diff(tau)])
            prop = np.array(nrm[0], float)
            if np.max(np.abs(prop - prev)) > 12 * C:                     # drawn as standard normals
                prop = prev + C * prop
            prop[0] = prev[0]
            tp = np.cumsum(np.exp(prop))
            s = np.sqrt(t[-1])

            def ll(tt):
                c = np.r_[-np.inf, tt, np.inf]
                P = st.norm.cdf((c[y + 1] - pred) / s) - st.norm.cdf((c[y] - pred) / s)
                return np.sum(np.log(np.where(P > 1e-8, P, np.nan))[y > 0])     # the first threshold does not move; rounding decides below 1e-8
            d, lu = ll(tp) - ll(tau), np.log(float(uni[0]))
            if not np.isfinite(d) or abs(d - lu) < 1e-6 * (1 + abs(d)):
                continue
            self.ok(bool(acc) == (d > lu), "wrong-transition", "thresholds accepted=%s where the log ratio is %.6g and the uniform %.6g" % (acc, d, lu))
            self.near(new, tp if d > lu else tau, "wrong-transition", 1e-9, "thresholds")
        return "judged"

    # ------------------------------------------------------------------ chains
    def kws(self, op):
        return dict(n_samples=op["n"], n_chains=op["chains"], burnin=op["burn"], save_u=op["u"], save_pred=op["pred"], save_lvar=op["lvar"] and self.c["fam"] != "normal")

    def sampled(self, m, op):
        """False if a covariance block became numerically singular"""
        try:
            m.sample(**self.kws(op))
            return True
        except Exception as e:
            if isinstance(e, np.linalg.LinAlgError) or "PositiveDefinite" in type(e).__name__:
                self.ctx.count("probe:degenerate")
                return False
            raise

    def snapshot(self, m):
        d = dict(samples=m.samples, beta=m.beta, theta=m.theta, res=m.res.to_numpy(float))
        d.update(m.secondary_samples)
        if self.c["fam"] == "ordinal_probit":
            d["tau"] = m.tau
        return {k: np.array(v, float) for k, v in d.items()}

    def op_run(self, op, a):
        m = self.m
        seed = op["s"]
        ft, df = op.get("fault"), op.get("drawfault")
        if ft or df:
            m.rng = Gen(seed + 9, self.c["modes"], df and df["k"], df and faults.exc_type(df["kind"]))
            lf = faults.LineFault(self.root, ft["k"], ft["kind"]) if ft else None
            try:
                if lf is None:
                    m.sample(**self.kws(op))
                else:
                    with lf:
                        m.sample(**self.kws(op))
            except BaseException as e:
                if not (faults.injected(e) or (lf is not None and lf.fired) or m.rng.failed or isinstance(e, np.linalg.LinAlgError) or "PositiveDefinite" in type(e).__name__):
                    raise
                self.ctx.count("fault:" + (ft or df)["kind"] + ("" if ft else "-in-draw"))
        gen = (lambda: np.random.default_rng(seed)) if op["s"] % 3 else (lambda: Gen(seed, self.c["modes"]))
        if op["judge"] == "twin":
            m.rng = gen()
            state = np.random.get_state()[1].copy()
            done = self.sampled(m, op)
            self.ok(np.array_equal(np.random.get_state()[1], state), "global-state", "sampling with a generator moved the global random state")
            one = self.snapshot(m) if done else {}
            np.random.seed(op["s"] % 1000 + 1)
            np.random.normal(size=3)
            fresh, _ = self.make(self.c)
            fresh.rng = gen()
            two = self.snapshot(fresh) if self.sampled(fresh, op) else {}
            self.ok(sorted(one) == sorted(two), "chain-differs", "saved %s and %s" % (sorted(one), sorted(two)))
            for k in one:
                self.ok(np.array_equal(one[k], two[k], equal_nan=True), "chain-differs", "%s of a chain differ from those of a fresh sampler whose generator is in the same state" % k)
            if not done:
                return "degenerate"
            self.summaries(m, op)
            self.ctx.count("probe:judged")
            return "twin"
        if not self.chain(op, gen()):
            return "degenerate"
        self.ctx.count("probe:judged")
        return "chain"

    def summaries(self, m, op):
        kept = m.samples[:, op["burn"]:]
        nf = self.X.shape[1]
        nt = len(m.t_init) - (0 if m.freeR else 1)
        self.near(m.beta, kept[:, :, :nf].mean((0, 1)), "wrong-summary", 1e-9, "beta against the mean of its samples")
        self.near(m.theta, kept[:, :, nf:nf + nt].mean((0, 1)), "wrong-summary", 1e-9, "theta against the mean of its samples")
        cols = list(range(nf + nt))
        if self.c["fam"] == "ordinal_probit":
            nth = m.n_thresh
            cols += list(range(kept.shape[2] - nth + 1, kept.shape[2]))
            self.near(m.tau, kept[:, :, -nth + 1:].mean((0, 1)), "wrong-summary", 1e-9, "tau against the mean of its samples")
        x = kept[:, :, cols].reshape(-1, len(cols))
        self.near(m.res["mean"], x.mean(0), "wrong-summary", 1e-5, "means reported")
        self.near(m.res["sd"], x.std(0), "wrong-summary", 1e-5, "standard deviations reported")
        agg = m.aggregate_samples()
        self.near(agg["$\\beta$"], kept[:, :, :nf].reshape(-1, nf), "wrong-summary", 1e-12, "aggregated beta")
        self.near(agg["$\\theta$"], kept[:, :, nf:nf + nt].reshape(-1, nt), "wrong-summary", 1e-12, "aggregated theta")
        if "u" in m.secondary_samples:
            self.near(agg["u"], m.secondary_samples["u"][:, op["burn"]:].reshape(-1, m.n_re), "wrong-summary", 1e-12, "aggregated u")

    def chain(self, op, gen):
        """every transition starts from the state the last ones left, every sample is the state it was saved from"""
        m, fam = self.make(self.c)[0], self.c["fam"]
        m.rng = gen
        log = []

        def spy(name, ins):
            real = getattr(m, name)

            def f(*a, **k):
                old = [np.array(a[i], float) if i < len(a) else None for i in ins]
                out = real(*a, **k)
                log.append((name, old, np.array(out[0] if isinstance(out, tuple) else out, float)))
                return out
            setattr(m, name, f)
        lv = dict(bernoulli=("slice_sample_lvar", (3, 4, 2)), binomial=("mh_lvar_binomial", (1, 0, 2)), ordinal_probit=("mh_lvar_ordinal_probit", (0, 2, 3))).get(fam)
        spy("sample_location", (0, 3))
        spy("sample_theta", (0, 1, 2, 3))
        if lv:
            spy(*lv)
        if fam == "ordinal_probit":
            spy("sample_tau", (0, 1, 2))
        if not self.sampled(m, op):
            return False
        self.summaries(m, op)
        n, C, nf = op["n"], op["chains"], self.X.shape[1]
        locs, ths = [x for x in log if x[0] == "sample_location"], [x for x in log if x[0] == "sample_theta"]
        if len(locs) != n * C or len(ths) != n * C:
            self.ctx.count("probe:unrecorded")
            return True
        Wd = np.hstack([self.X, self.Z])
        S = np.array(m.samples)
        U, Pd, Lv = (m.secondary_samples.get(k) for k in ("u", "pred", "lvar"))
        c = 1.0
        if fam == "bernoulli":
            i = np.argmax(np.abs(locs[0][2][:nf]))
            c = float(locs[0][2][i] / S[0, 0, i])
            self.ok(c > 0 and np.isfinite(c), "wrong-sample", "the first sample of beta is not a multiple of the state")
        same = lambda x, y, what: self.near(x, y, "wrong-sample", 1e-9, what)
        link = lambda x, y, what: self.near(x, y, "wrong-coupling", 1e-9, what)
        p, tau = 0, None
        for ch in range(C):
            th, loc, z, t = m.t_init.copy(), np.zeros(Wd.shape[1]), None, None
            tau_i = 0
            for i in range(n):
                step = []
                while p < len(log):
                    step.append(log[p])
                    p += 1
                    if step[-1][0] == "sample_theta":
                        break
                pred = Wd @ loc
                for name, old, new in step:
                    if name == "sample_tau":
                        link(old[0], th, "theta seen by the thresholds")
                        link(old[2], pred, "prediction seen by the thresholds")
                        if t is not None:
                            link(old[1], t, "thresholds the next start from")
                        t = new
                    elif lv and name == lv[0]:
                        link(old[0], np.sqrt(th[-1]) if fam == "binomial" else th, "scale seen by the latent variables")
                        link(old[1], pred, "prediction seen by the latent variables")
                        if z is not None:
                            link(old[2], z, "latent variables the next start from")
                        z = new
                    elif name == "sample_location":
                        link(old[0], th, "theta seen by the location effects")
                        if fam == "normal":
                            link(old[1], self.m.y, "response seen by the location effects")
                        elif z is not None:
                            link(old[1], z, "latent variables seen by the location effects")
                        loc = new
                        pred = Wd @ loc
                    elif name == "sample_theta":
                        link(old[0], th, "theta the next starts from")
                        link(old[1], loc[nf:], "random effects seen by theta")
                        link(old[2], self.m.y if fam == "normal" else old[2] if z is None else z, "latent variables seen by theta")
                        link(old[3], pred, "prediction seen by theta")
                        th = new
                        if not m.freeR:
                            self.ok(th[-1] == m.t_init[-1], "wrong-transition", "a fixed residual variance moved")
                where = " of chain %d sample %d" % (ch, i)
                same(S[ch, i, :nf] * c, loc[:nf], "beta" + where)
                k = nf + len(th) - (0 if m.freeR else 1)
                same(S[ch, i, nf:k] * c, th[:k - nf], "theta" + where)
                if t is not None:
                    same(S[ch, i, -len(t):], t, "tau" + where)
                if U is not None:
                    same(U[ch, i] * c, loc[nf:], "u" + where)
                if Pd is not None:
                    same(Pd[ch, i] * c, Wd @ loc, "prediction" + where)
                if Lv is not None and z is not None:
                    same(Lv[ch, i], z, "latent variables" + where)
        return True


class Recorder(np.random.Generator):
    def __new__(cls, *a):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.drawn = []

    def reset(self):
        self.drawn = []

    def _rec(self, k, v):
        self.drawn.append((k, v))
        return v

    def normal(self, *a, **k):
        return self._rec("normal", super().normal(*a, **k))

    def standard_normal(self, *a, **k):
        return self._rec("normal", super().standard_normal(*a, **k))

    def uniform(self, *a, **k):
        return self._rec("uniform", super().uniform(*a, **k))

    def random(self, *a, **k):
        return self._rec("random", super().random(*a, **k))


class Bar:
    """a progress bar that shows nothing"""

    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def update(self, *a):
        pass
    close = set_description = set_postfix = update


WORLD = W
