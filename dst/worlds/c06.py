"""C06: permutation tests against the permutations the simulator dealt."""
import warnings
import numpy as np
from ..core import World
from .. import faults, rngs, jitseam
from .c05 import TqdmStub

OLS_CALLS = ["ols2", "lm", "ols1_fl", "ols1_fl_default", "ols1_perm", "ols1_store"]
IND_CALLS = ["dcorr_dist", "dcorr_p", "dhsic"]


def tstats(X, y):
    n, p = X.shape
    Q, R = np.linalg.qr(X)
    b = np.linalg.solve(R, Q.T @ y)
    r = y - X @ b
    Ri = np.linalg.inv(R)
    return b / np.sqrt(r @ r / (n - p) * np.sum(Ri**2, axis=1))


def dist(X):
    return np.sqrt(np.maximum(((X[:, None, :] - X[None, :, :])**2).sum(-1), 0))


def ref_dcorr(X, Y, unbiased):
    n = len(X)
    A, B = dist(X), dist(Y)
    J = np.eye(n) - np.ones((n, n)) / n
    if unbiased:
        def u(D):
            s = D.sum(1)
            U = D - s[:, None] / (n - 2) - s[None, :] / (n - 2) + D.sum() / ((n - 1) * (n - 2))
            return U - np.diag(np.diag(U))
        A, B = u(A), u(B)
    else:
        A, B = J @ A @ J, J @ B @ J
    d = np.sum(A * A) * np.sum(B * B)
    return np.sum(A * B) / np.sqrt(d) if d > 0 else np.nan


def ref_dhsic(X, Y, bx, by):
    n = len(X)
    K, L = np.exp(-dist(X)**2 / (2 * bx**2)), np.exp(-dist(Y)**2 / (2 * by**2))
    return (K * L).mean() + K.mean() * L.mean() - 2 * np.mean(K.mean(1) * L.mean(1))


class W(World):
    prop = "C06"
    technique = ("seeded simulation of permutation tests: the simulator deals every permutation (identity, repeated, swapped, reversed "
                 "included), decides the order of parallel iterations, fails the k-th draw or interrupts any executed line; refinement of "
                 "the p-values and stored samples against statistics recomputed from the permutations dealt")
    rule = ("a run builds one data set and executes 1-3 permutation tests under dealt permutations, iteration orders and injected faults; "
            "non-trivial: at least one finished test was compared with recomputed statistics")
    states_measure = "distinct (test, options, draw modes, loop order, fault kind, outcome, p-value bracket) tuples"
    real = ("pystatsm.pyglm2.ols.OLS._permutation_test", "pystatsm.pyglm.ols permutation_test / freedman_lane",
            "pystatsm.pyglm.linear_model.LinearModel._permutation_test", "pystatsm.misc.independence_tests")
    stub = ("random permutation source (dealt by the simulator)", "tqdm progress bar",
            "numba kernels of the independence tests run as the Python source they are compiled from, parallel loops in dealt order")
    assumptions = ("a permuted statistic within rounding of the observed one may be counted either way",)
    quick_runs, thorough_runs = 4000, 120000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        import tqdm
        tqdm.tqdm = TqdmStub
        import pandas as pd
        import pystatsm.pyglm2.ols as ols2
        import pystatsm.pyglm.ols as ols1
        import pystatsm.pyglm.linear_model as lm
        import pystatsm.misc.independence_tests as it
        import pystatsm.utilities.data_utils as du
        self.fake = jitseam.interpret(it, du)
        self.m = dict(ols2=ols2, ols1=ols1, lm=lm, it=it)
        self.pd = pd

    def gen(self, r, tier):
        lin = r.random() < 0.55
        c = dict(lin=lin, n=r.randrange(6, 24), p=r.choice([1, 1, 2, 3, 4]) if lin else r.choice([1, 1, 2, 3]), q=r.choice([1, 1, 2]), seed=r.randrange(1 << 30),
                 grid=r.random() < 0.3, onedim=r.random() < 0.5, formula=r.random() < 0.5, signal=r.choice([0.0, 0.3, 2.0]), scale=r.choice([1.0, 1.0, 1e3, 1e-3]))
        if lin:
            c["n"] = max(c["n"], c["p"] + 4)
        ops = [self.gen_op(r, c, tier) for _ in range(r.choice([1, 1, 2, 3]))]
        return dict(config=c, ops=ops)

    def gen_op(self, r, c, tier):
        call = r.choice(OLS_CALLS if c["lin"] else IND_CALLS)
        modes = [r.choice(rngs.MODES_PERM) if r.random() < 0.5 else "iid" for _ in range(r.choice([1, 2, 3, 5]))]
        k = c["p"] + 1
        voi = sorted(r.sample(range(k), r.randrange(1, k + 1)))
        if r.random() < 0.3:
            r.shuffle(voi)
        op = dict(op=call, n=r.choice([1, 2, 3, 7, 10, 20, 30]), seed=r.randrange(1 << 30), modes=modes, verbose=r.random() < 0.3,
                  rng=r.random() < 0.6, voi=voi, arr=r.random() < 0.3, unbiased=r.random() < 0.5, bw=r.choice(["median", "median", "nvars", "list"]),
                  bws=[round(r.uniform(0.2, 3.0), 3), round(r.uniform(0.2, 3.0), 3)], order=r.choice(["seq", "reverse", "random", "blocks", "robin"]))
        x = r.random()
        if x < 0.15:
            op["drawfault"] = dict(kind=r.choice(["interrupt", "memory"]), k=r.randrange(1, op["n"] + 2))
        elif x < 0.4:
            op["fault"] = dict(kind=r.choice(faults.KINDS), k=int(2 ** r.uniform(0, 9)))
        return op

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("p", 1), ("q", 1), ("n", 6 + c["p"]), ("grid", False), ("scale", 1.0), ("formula", False)):
            if c[k] != v and not (k == "p" and any(max(o["voi"]) > 1 for o in sc["ops"])):
                yield dict(sc, config=dict(c, **{k: v}))
        for i, op in enumerate(sc["ops"]):
            for k, v in (("n", 1), ("modes", ["iid"]), ("verbose", False), ("voi", [1]), ("order", "seq")):
                if op[k] != v:
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])

    # ------------------------------------------------------------------ run
    def execute(self, sc, ctx):
        c = sc["config"]
        g = np.random.default_rng(c["seed"])
        n, p = c["n"], c["p"]
        X = g.normal(size=(n, p)) * c["scale"]
        if c["grid"]:
            X = np.round(X / c["scale"]) * c["scale"]
        if c["lin"]:
            if c["grid"]:
                X[:, 0] += np.arange(n) * c["scale"]           # keeps the columns independent
            y = c["signal"] * X[:, 0] / c["scale"] + g.normal(size=n) + 1.0
            if c["grid"]:
                y = np.round(y)
            X = np.c_[np.ones(n), X]
            if np.linalg.cond(X / np.abs(X).max(0)) > 1e4 or np.ptp(y) == 0:
                ctx.event("degenerate data")
                return
            return self.linear(sc, ctx, X, y)
        Y = np.abs(X[:, :1]) / c["scale"] * c["signal"] + g.normal(size=(n, c["q"]))
        if c["grid"]:
            Y = np.round(Y)
        self.indep(sc, ctx, X, Y)

    def sim(self, ctx, sc, op, call):
        df_ = op.get("drawfault")
        exc = faults.exc_type(df_["kind"]) if df_ else None
        dealer = rngs.Dealer(op["seed"], op["modes"], df_["k"] if df_ else None, exc)
        self.fake.sched = jitseam.Sched(op["seed"] + 1, op["order"])
        f = op.get("fault")
        ctx.count("op:" + op["op"])
        out = err = lf = None
        try:
            with rngs.patched_numpy(dealer):
                if f:
                    with faults.LineFault(self.root, f["k"], f["kind"]) as lf:
                        out = call(dealer)
                else:
                    out = call(dealer)
        except BaseException as e:
            if not faults.injected(e):
                raise
            err = e
        if (lf and lf.fired) or dealer.failed:
            ctx.count("fault:" + (f["kind"] if f else "draw-" + df_["kind"]))
        perms = dealer.dealt("perm", sc["config"]["n"])
        return out, err, perms

    def done(self, ctx, op, err, *extra):
        ctx.state(op["op"], ",".join(sorted(set(op["modes"]))), op["order"], (op.get("fault") or op.get("drawfault") or {}).get("kind", ""),
                  type(err).__name__, *extra)

    def bracket(self, ctx, op, got, perm_stats, obs, what):
        """got is the proportion of perm_stats exceeding obs, values tied up to rounding counted either way"""
        s = np.asarray(perm_stats)
        tol = 1e-7 * (1e-6 + np.maximum(np.abs(s), abs(obs)))
        lo, hi = np.mean(s > obs + tol), np.mean(s >= obs - tol)
        ctx.check(lo - 1e-9 <= got <= hi + 1e-9, "p-value-wrong",
                  lambda: "%s: p-value %.6g, but %d of %d permuted statistics exceed the observed %.6g (%d with ties)"
                  % (what, got, round(lo * len(s)), len(s), obs, round(hi * len(s))))
        ctx.check(0 <= got <= 1 + 1e-12, "p-value-range", lambda: "%s: %r" % (what, got))
        ctx.count("probe:p-values")
        ctx.steps += 1

    def drawn(self, ctx, op, perms):
        """the permutations of a finished test, or None if it did not get them through the seam"""
        if not perms:
            ctx.count("probe:unseen-draws")
            return False
        ctx.check(len(perms) == op["n"], "draws-vs-permutations", lambda: "%d permutations drawn for n_perms=%d" % (len(perms), op["n"]))
        return True

    # ------------------------------------------------------------------ linear models
    def linear(self, sc, ctx, X, y):
        c, pd = sc["config"], self.pd
        Xin, yin = X.copy(), y.copy()
        df = pd.DataFrame(X[:, 1:], columns=["x%d" % i for i in range(1, X.shape[1])])
        df["y"] = y
        snap = df.copy(deep=True)
        rhs = "+".join(df.columns[:-1])
        mods = {}
        for op in sc["ops"]:
            which = dict(ols2="ols2", lm="lm").get(op["op"], "ols1")
            if which not in mods:
                cls = dict(ols2=self.m["ols2"].OLS, lm=self.m["lm"].LinearModel, ols1=self.m["ols1"].OLS)[which]
                mods[which] = cls("y~" + rhs, df) if c["formula"] or op["op"] == "ols1_fl_default" else cls(X=Xin, y=yin)
                if which != "ols1" or op["seed"] % 2:
                    getattr(mods[which], "_fit" if which == "lm" else "fit")()
            mod = mods[which]
            voi = np.array(op["voi"]) if op["arr"] else list(op["voi"])
            full = len(op["voi"]) == X.shape[1]

            def call(dealer):
                rng = rngs.SimGenerator(dealer) if op["rng"] else None
                k = op["op"]
                if k in ("ols2", "lm"):
                    return mod._permutation_test(voi, op["n"], verbose=op["verbose"], rng=rng)
                if k == "ols1_fl":
                    return mod.freedman_lane(voi, op["n"], verbose=op["verbose"])
                if k == "ols1_fl_default":
                    return mod.freedman_lane(n_perms=op["n"], verbose=op["verbose"])
                return mod.permutation_test(op["n"], store_samples=k == "ols1_store", verbose=op["verbose"])
            if full and op["op"] == "ols1_fl":
                op = dict(op, voi=[1])
                voi = [1]
            out, err, perms = self.sim(ctx, sc, op, call)
            ctx.event(op["op"], type(err).__name__, len(perms))
            ctx.check(np.array_equal(Xin, X) and np.array_equal(yin, y) and df.equals(snap), "input-changed", "the arrays passed in were changed")
            ctx.check(np.array_equal(np.asarray(mod.X), X) and np.array_equal(np.asarray(mod.y).reshape(-1), y), "model-changed", "the model's data changed")
            if err is not None:
                self.done(ctx, op, err)
                continue
            obs = np.abs(tstats(X, y))
            ctx.close(np.abs(mod.tvalues), obs, "observed-statistic-wrong", 1e-6, 1e-7, "observed |t|")
            k = op["op"]
            if k in ("ols2", "lm"):
                v = list(op["voi"])
                pf, pv = out
            elif k.startswith("ols1_fl"):
                v = list(op["voi"]) if k == "ols1_fl" else (list(range(1, X.shape[1])) if "Intercept" in mod.res.index else list(range(X.shape[1])))
                pv = np.asarray(mod.res["freedman_lane_p"].iloc[v], float)
                pf = np.asarray(mod.res["freedman_lane_p_fwer"].iloc[v], float)
            else:
                v = list(range(X.shape[1]))
                pv, pf = np.asarray(mod.res["permutation_p"], float), np.asarray(mod.res["permutation_p_fwer"], float)
            ctx.check(len(pv) == len(v) and len(pf) == len(v), "p-value-count", "one p-value per coefficient")
            seen = self.drawn(ctx, op, perms)
            if seen:
                if k in ("ols1_perm", "ols1_store"):
                    ts = np.array([np.abs(tstats(X, y[i])) for i in perms])
                else:
                    Xc = X[:, [j for j in range(X.shape[1]) if j not in v]]
                    u = Xc @ np.linalg.lstsq(Xc, y, rcond=None)[0] if Xc.shape[1] else np.zeros(len(y))
                    ts = np.array([np.abs(tstats(X, u + (y - u)[i]))[v] for i in perms])
                for j, vj in enumerate(v):
                    self.bracket(ctx, op, pv[j], ts[:, j], obs[vj], "%s coefficient %d" % (k, vj))
                    self.bracket(ctx, op, pf[j], ts.max(axis=1), obs[vj], "%s coefficient %d, family-wise" % (k, vj))
                if k == "ols1_store":
                    got = np.asarray(mod.permutation_t_samples)
                    want = np.array([tstats(X, y[i]) for i in perms])
                    ctx.check(got.shape == want.shape, "sample-count", lambda: "%s stored, %s asked" % (got.shape, want.shape))
                    ctx.close(got / (1 + np.abs(want)), want / (1 + np.abs(want)), "permuted-statistic-wrong", 1e-6, 1e-6, "stored permuted t values")
            self.done(ctx, op, err, "p0" if pv.min() == 0 else "p1" if pv.max() == 1 else "mid")

    # ------------------------------------------------------------------ independence tests
    def indep(self, sc, ctx, X, Y):
        c, it = sc["config"], self.m["it"]
        Xs = X[:, 0] if c["onedim"] and X.shape[1] == 1 else X
        Ys = Y[:, 0] if c["onedim"] and Y.shape[1] == 1 else Y
        Xin, Yin = Xs.copy(), Ys.copy()
        if np.ptp(X, axis=0).max() == 0 or np.ptp(Y, axis=0).max() == 0:
            ctx.event("degenerate data")
            return
        for op in sc["ops"]:
            k = op["op"]
            bw = op["bw"] if op["bw"] != "list" else [op["bws"][0] * c["scale"], op["bws"][1]]

            def call(dealer):
                if k == "dhsic":
                    return it.dhsic_test(Xin, Yin, bw=bw, n_perms=op["n"])
                return it.dcorr_permutation_test(Xin, Yin, n_perms=op["n"], unbiased=op["unbiased"], return_samples=k == "dcorr_dist")
            out, err, perms = self.sim(ctx, sc, op, call)
            ctx.event(k, type(err).__name__, len(perms))
            ctx.check(np.array_equal(Xin, Xs) and np.array_equal(Yin, Ys), "input-changed", "the arrays passed in were changed")
            if err is not None:
                self.done(ctx, op, err)
                continue
            if k == "dhsic":
                stat, bx, by, samples, p = out
                if bw == "median":
                    for Z, b in ((X, bx), (Y, by)):
                        d = dist(Z)[np.triu_indices(len(Z), 1)]
                        ctx.close(b, np.sqrt(np.median(d**2) / 2), "bandwidth-wrong", 1e-9, 1e-12, "median bandwidth")
                if not (bx > 1e-8 * c["scale"] and by > 1e-8):
                    ctx.count("probe:degenerate")
                    continue
                ref = lambda Yp: ref_dhsic(X, Yp, bx, by)
                scale = 1.0
            else:
                stat, samples, p = out
                ref = lambda Yp: ref_dcorr(X, Yp, op["unbiased"])
                if not np.isfinite(ref(Y)):
                    ctx.count("probe:degenerate")
                    continue
                scale = 1.0
            obs = ref(Y)
            ctx.close(stat, obs, "observed-statistic-wrong", 1e-8, 1e-10 * scale, "observed statistic")
            if self.drawn(ctx, op, perms):
                want = np.array([ref(Y[i]) for i in perms])
                if np.all(np.isfinite(want)):
                    if samples is not None:
                        ctx.check(len(samples) == op["n"], "sample-count", lambda: "%d samples for n_perms=%d" % (len(samples), op["n"]))
                        ctx.close(np.sort(samples), np.sort(want), "permuted-statistic-wrong", 1e-8, 1e-10, "permuted statistics")
                    self.bracket(ctx, op, float(p), np.abs(want), abs(obs), k)
            self.done(ctx, op, err, op["unbiased"] if k != "dhsic" else op["bw"], "p0" if p == 0 else "p1" if p == 1 else "mid")


WORLD = W
