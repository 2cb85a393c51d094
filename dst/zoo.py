"""The model classes of the library as uniform entries: data, construction, fit, what a fit reports, and evaluation
calls.  Used by the properties that speak about every model class (re-fitting, isolation, caller data)."""
import importlib
import numpy as np
import pandas as pd
from .given import given


class Entry:
    """name; data(g) -> dict of caller arguments; make(a) -> model; fit(m, a); attrs: names of what a fit reports;
    evals: name -> f(m, a, s): an evaluation whose answer depends on its arguments only, s picks the argument;
    queries: calls that use a fitted model"""

    def __init__(self, name, group, data, make, fit, attrs, evals=None, queries=None, refit="equal", cost=1, alts=()):
        self.name, self.group, self.data, self.make, self.fit = name, group, data, make, fit
        self.attrs, self.evals, self.queries = attrs, evals or {}, queries or {}
        self.refit, self.cost, self.alts = refit, cost, list(alts)


def quiet(f):
    """run f with its progress bars and reports discarded"""
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f()


def dealt(f):
    """run f with unseeded generators dealt by the simulator, the same way at every call"""
    from . import rngs
    with rngs.patched_numpy(rngs.Dealer(5)):
        return f()


def imp(path):
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module("pystatsm." + mod), name)


# ------------------------------------------------------------------ data

def frame(g, n=40, p=2, cat=True):
    df = pd.DataFrame(g.normal(size=(n, p)), columns=["x%d" % (i + 1) for i in range(p)])
    if cat:
        df["k"] = g.integers(0, 3, size=n).astype(str)
        df.loc[: 5, "k"] = ["0", "1", "2", "0", "1", "2"]
    df["eta"] = 0.3 + 0.6 * df["x1"] - 0.4 * df["x%d" % p]
    return df


def reg(g, n=40):
    df = frame(g, n)
    df["y"] = df.pop("eta") + g.normal(size=n)
    return dict(data=df)


def reg_xy(g, n=40):
    d = reg(g, n)["data"]
    X = np.c_[np.ones(n), d[["x1", "x2"]].values]
    return dict(X=X, y=d["y"].values.copy())


def reg_w(g, n=40):
    d = reg(g, n)
    d["weights"] = g.integers(1, 4, size=n).astype(float)
    return d


def count(g, n=60):
    df = frame(g, n)
    mu = np.exp(df.pop("eta"))
    df["y"] = g.poisson(mu * g.gamma(2.0, 0.5, size=n)).astype(float)
    return dict(data=df)


def binary(g, n=60):
    df = frame(g, n)
    df["y"] = (g.uniform(size=n) < 1 / (1 + np.exp(-df.pop("eta")))).astype(float)
    return dict(data=df)


def positive(g, n=50):
    df = frame(g, n)
    df["y"] = g.gamma(4.0, np.exp(df.pop("eta") * 0.5) / 4.0)
    return dict(data=df)


def ordinal(g, n=80):
    df = frame(g, n)
    z = df.pop("eta") + g.logistic(size=n)
    df["y"] = np.digitize(z, np.quantile(z, [0.3, 0.6])).astype(float)
    return dict(data=df)


def zinf(g, n=120):
    df = frame(g, n)
    mu = np.exp(0.8 + df.pop("eta"))
    df["y"] = g.poisson(mu).astype(float) * (g.uniform(size=n) < 0.7)
    return dict(data=df)


def unit(g, n=60):
    df = frame(g, n)
    m = 1 / (1 + np.exp(-df.pop("eta")))
    df["y"] = np.clip(g.beta(m * 8, (1 - m) * 8), 1e-3, 1 - 1e-3)
    return dict(data=df)


def multi(g, n=50):
    df = frame(g, n)
    e = df.pop("eta")
    E = g.normal(size=(n, 2)) @ np.array([[1.0, 0.5], [0.0, 0.8]])
    df["y1"], df["y2"] = e + E[:, 0], -e + E[:, 1]
    return dict(data=df)


def mixed(g, n_grp=10, n_per=7):
    n = n_grp * n_per
    df = frame(g, n)
    df["id"] = np.repeat(np.arange(n_grp), n_per)
    u = g.normal(size=(n_grp, 2)) @ np.array([[0.9, 0.3], [0.0, 0.7]])
    df["y"] = df.pop("eta") + u[df["id"], 0] + u[df["id"], 1] * df["x1"] + g.normal(size=n) * 0.7
    return dict(data=df)


def mixed_binary(g):
    d = mixed(g, 12, 8)
    d["data"]["y"] = (d["data"]["y"] + g.logistic(size=len(d["data"])) > 0).astype(float)
    return d


def mixed_multi(g):
    d = mixed(g)
    d["data"]["y2"] = d["data"]["y"] * 0.5 + g.normal(size=len(d["data"]))
    return d


def smooth(g, n=90):
    df = pd.DataFrame(g.uniform(-1, 1, size=(n, 2)), columns=["x1", "x2"])
    f = 3.0 * df["x1"]**3 - 2.4 * df["x1"] + 0.5 * df["x2"]
    df["y"] = f + g.normal(size=n) * 0.5
    df["yp"] = g.gamma(6.0, np.exp(0.5 * f) / 6.0)
    return dict(data=df)


def factor(g, n=120, p=6):
    L = np.zeros((p, 2))
    L[:p // 2, 0], L[p // 2:, 1] = np.linspace(1, 0.6, p // 2), np.linspace(1, 0.6, p - p // 2)
    X = g.normal(size=(n, 2)) @ np.array([[1, 0.3], [0, 0.95]]) @ L.T + g.normal(size=(n, p)) * 0.6
    return dict(X=pd.DataFrame((X - X.mean(0)) / X.std(0), columns=["v%d" % i for i in range(p)]))


def struct(g, n=90):
    f = g.normal(size=n)
    x = g.normal(size=n)
    f = f + 0.5 * x
    df = pd.DataFrame({"x1": x})
    for j, l in enumerate([1.0, 0.8, 0.9]):
        df["y%d" % (j + 1)] = l * f + g.normal(size=n) * 0.7
    df["z1"] = 0.6 * f + g.normal(size=n)
    return dict(data=df)


def struct_groups(g, n=120):
    d = struct(g, n)
    d["data"]["grp"] = np.arange(n) % 2
    d["spec_kws"] = dict(group_col="grp", shared=[True, False, False, False, True, False])
    return d


def struct_matrices(g):
    d = struct(g)["data"][["y1", "y2", "y3", "z1"]]
    L = pd.DataFrame(np.array([[1.0, 0], [1, 0], [1, 0], [0, 1]]), index=d.columns, columns=["f", "h"])
    B = pd.DataFrame(np.array([[0.0, 0], [1, 0]]), index=L.columns, columns=L.columns)
    Ph = pd.DataFrame(np.eye(2), index=L.columns, columns=L.columns)
    Ps = pd.DataFrame(np.diag([1.0, 1, 1, 0]), index=d.columns, columns=d.columns)
    return dict(data=d, Lambda=L, Beta=B, Phi=Ph, Psi=Ps)


def sparse_reg(g, n=50, p=6):
    X = g.normal(size=(n, p))
    X = (X - X.mean(0)) / X.std(0)
    eta = X[:, 0] - 0.8 * X[:, 2]
    return dict(X=X, y=eta + g.normal(size=n), yb=(g.uniform(size=n) < 1 / (1 + np.exp(-eta))).astype(float))


def ordinals(g, n=150):
    Z = g.normal(size=(n, 3)) @ np.linalg.cholesky(np.array([[1, 0.5, 0.3], [0.5, 1, 0.2], [0.3, 0.2, 1]])).T
    return dict(data=pd.DataFrame({"a": np.digitize(Z[:, 0], [-0.5, 0.5]), "b": np.digitize(Z[:, 1], [0.0]), "c": np.digitize(Z[:, 2], [-0.8, 0, 0.8])}))


def serial(g, n=100):
    d = ordinals(g, n)["data"]
    return dict(x=d["a"].values.astype(float), y=d["a"].values * 0.7 + g.normal(size=n))


def views(g, n=60):
    z = g.normal(size=(n, 2))
    X = z @ g.normal(size=(2, 5)) + g.normal(size=(n, 5))
    Y = z @ g.normal(size=(2, 5)) + g.normal(size=(n, 5))
    return dict(X=X, Y=Y)


# ------------------------------------------------------------------ entries

SEMF = "f =~ y1 + y2 + y3\nf ~ x1\nz1 ~ f"


def entries():
    """every entry that could be built from this tree, and the import errors of the others"""
    out, missing = [], {}

    def add(name, group, data, path, make, fit, attrs, **kw):
        try:
            cls = imp(path)
        except Exception as e:
            missing[name] = repr(e)
            return
        out.append(Entry(name, group, data, lambda a: make(cls, a), fit, attrs, **kw))

    def jitter(x, s):
        return given(np.asarray(x, float) + 0.05 * np.cos(np.arange(len(x)) + s))
    f0 = lambda m, a: m.fit()
    lin = dict(predict=lambda m, a, s: m.predict())
    add("ols2", "linear", reg, "pyglm2.ols.OLS", lambda c, a: c("y~x1+x2+k", a["data"]), f0,
        ["beta", "params", "res", "resid_var", "beta_cov", "llf", "sumstats", "aic", "bic", "rsquared", "se_params", "params_cov"],
        evals=dict(loglike=lambda m, a, s: m.loglike(jitter(m.params, s)), gradient=lambda m, a, s: m.gradient(jitter(m.params, s)),
                   hessian=lambda m, a, s: m.hessian(jitter(m.params, s))), queries=lin, alts=[lambda m, a: m._fit(reml=False)])
    add("ols2w", "linear", reg_w, "pyglm2.ols.OLS", lambda c, a: c("y~x1+x2", a["data"], weights=a["weights"]), f0, ["beta", "params", "res", "llf"])
    add("ols1", "linear", reg, "pyglm.ols.OLS", lambda c, a: c("y~x1+x2+k", a["data"]), f0, ["beta", "res", "beta_se", "sumstats", "ssr", "rsquared", "s2"], queries=lin)
    add("ols1xy", "linear", reg_xy, "pyglm.ols.OLS", lambda c, a: c(X=a["X"], y=a["y"]), f0, ["beta", "res", "beta_se"])
    add("lm", "linear", reg, "pyglm.linear_model.LinearModel", lambda c, a: c("y~x1+x2+k", a["data"]), lambda m, a: m._fit(),
        ["beta", "params", "res", "resid_var", "llf"])
    add("mvols", "linear", multi, "pyglm2.mvols.MVOLS", lambda c, a: c("y1+y2~x1+x2", a["data"]), f0, ["params", "B", "res", "Sigma", "llf", "params_cov"], alts=[lambda m, a: m.fit(method="mle")])
    glm_attrs = ["params", "beta", "res", "se_params", "params_se", "llf", "LLF", "sumstats", "phi", "dev", "mu", "eta", "beta_cov", "beta_se", "params_cov",
                 "n_params", "ll_full", "ll_null", "lln", "llf", "vcov", "AIC", "BIC", "aic", "bic", "scale", "scchi2", "ssr"]

    def glm_evals(p="params"):
        return dict(loglike=lambda m, a, s: m.loglike(jitter(getattr(m, p), s)), gradient=lambda m, a, s: m.gradient(jitter(getattr(m, p), s)),
                    hessian=lambda m, a, s: m.hessian(jitter(getattr(m, p), s)))
    for nm, data, fam in (("gauss", reg, "Gaussian"), ("binom", binary, "Binomial"), ("pois", count, "Poisson"), ("gamma", positive, "Gamma"),
                          ("nb", count, "NegativeBinomial"), ("ig", positive, "InverseGaussian")):
        for tag, path, fpath, form in (("glm2", "pyglm2.glm.GLM", "pyglm2.families.", "family"), ("glm1", "pyglm.glm.GLM", "pyglm.families.", "fam"),
                                       ("lmglm", "pyglm.linear_model.GLM", "pyglm.families.", "family")):
            def make(c, a, fpath=fpath, fam=fam, form=form):
                F = imp(fpath + fam)
                kw = dict(scale_estimator="NR") if fam == "NegativeBinomial" else {}
                if fam in ("Gamma", "InverseGaussian"):
                    F = F(link=imp(fpath.rsplit(".families")[0] + ".links.LogLink"))
                return c(formula="y~x1+x2", data=a["data"], **{form: F}, **kw)
            add("%s-%s" % (tag, nm), "glm", data, path, make, f0, glm_attrs, evals=glm_evals("theta_init") if tag == "glm1" else glm_evals("params_init"), alts=[lambda m, a: m.fit(method="mn"), lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=2))))])
    add("glm2-nr", "glm", positive, "pyglm2.glm.GLM", lambda c, a: c("y~x1+x2", a["data"], family=imp("pyglm2.families.Gamma")(link=imp("pyglm2.links.LogLink")),
        scale_estimator="NR"), f0, glm_attrs)
    add("glm2-mn", "glm", binary, "pyglm2.glm.GLM", lambda c, a: c("y~x1+x2", a["data"], family=imp("pyglm2.families.Binomial")),
        lambda m, a: m.fit(method="mn"), glm_attrs)
    add("glm1-mn", "glm", binary, "pyglm.glm.GLM", lambda c, a: c(formula="y~x1+x2", data=a["data"], fam=imp("pyglm.families.Binomial")),
        lambda m, a: m.fit(method="mn"), glm_attrs)
    add("glm1-mn-gamma", "glm", positive, "pyglm.glm.GLM", lambda c, a: c(formula="y~x1+x2", data=a["data"], fam=imp("pyglm.families.Gamma")(link=imp("pyglm.links.LogLink"))),
        lambda m, a: m.fit(method="mn"), glm_attrs)
    add("clm2", "ordinal", ordinal, "pyglm2.clm.CLM", lambda c, a: c("y~x1+x2", a["data"]), f0, ["params", "res", "se_params", "llf", "params_cov", "sumstats"],
        evals=dict(loglike=lambda m, a, s: m.loglike(jitter(m.params_init, s)), gradient=lambda m, a, s: m.gradient(jitter(m.params_init, s))), alts=[lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=2))))])
    add("clm1", "ordinal", ordinal, "pyglm.clm.CLM", lambda c, a: c("y~x1+x2-1", a["data"]), f0, ["params", "res", "se_params", "resids", "theta", "beta", "LLA", "AIC", "BIC", "LLF", "sumstats"])
    add("nb2", "negbin", count, "pyglm.nb2.NegativeBinomial", lambda c, a: c("y~x1+x2", a["data"]), f0,
        ["params", "se_params", "res", "ll_full", "ll_null", "dev", "sumstats"], refit="close", alts=[lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=2))))])
    add("zip2", "zinf", zinf, "pyglm2.zinf.ZeroInflatedPoisson", lambda c, a: c("y~x1+x2", "~x2", data=a["data"]), f0, ["params", "res", "se_params", "params_cov"], alts=[lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=2))))])

    add("zip1", "zinf", zinf, "pyglm.zimodels.ZIP", lambda c, a: c(np.c_[np.ones(len(a["data"])), a["data"][["x1", "x2"]].values], a["data"]["y"].values), f0,
        ["params", "res", "se_params", "LLF"])
    add("betareg", "beta", unit, "pyglm.betareg.BetaReg", lambda c, a: c(m_formula="y~x1+x2", s_formula="y~1", data=a["data"]), f0, ["theta", "beta", "res", "se_theta", "LLA"])
    # ---- mixed
    lmm_attrs = ["theta", "beta", "u", "params", "se_params", "res", "sumstats", "ll", "llf", "AIC", "BIC", "re_covs", "re_corrs", "theta_chol"]

    def lmm_evals(rp):
        return dict(loglike=lambda m, a, s: m.loglike(jitter(m.theta * 0 + np.array(rp), s)), gradient=lambda m, a, s: m.gradient(jitter(m.theta * 0 + np.array(rp), s)))
    spd = [1.3, 0.2, 0.9, 1.1]
    add("lmm", "mixed", mixed, "pylmm.lmm.LMM", lambda c, a: c("y~x1+x2+(1+x1|id)", a["data"]), f0, lmm_attrs, evals=lmm_evals(spd), refit="close", cost=4,
        queries=dict(predict=lambda m, a, s: m.predict()), alts=[lambda m, a: m.fit(reml=False), lambda m, a: m.fit(use_grad=False, opt_kws=given(dict(maxiter=3))), lambda m, a: m.fit(analytic_se=True)])
    add("lmm-ml", "mixed", mixed, "pylmm.lmm.LMM", lambda c, a: c("y~x1+(1|id)", a["data"]), lambda m, a: m.fit(reml=False, use_hess=True), lmm_attrs, refit="close", cost=3)
    add("lmm2", "mixed", mixed, "pylmm.re_mod.LMM2", lambda c, a: c("y~x1+x2+(1+x1|id)", a["data"]), f0, lmm_attrs, evals=lmm_evals(spd), cost=3, refit="close",
        queries=dict(predict=lambda m, a, s: m.predict()), alts=[lambda m, a: m.fit(reml=False), lambda m, a: m.fit(opt_kws=given(dict(maxiter=2))), lambda m, a: m.fit(method="L-BFGS-B")])



    # ---- additive
    am = ["theta", "beta", "Vb", "Vp", "Vc", "edf", "res", "sumstats", "scale", "res_smooths", "ll_model", "aic"]

    def am_evals(v):
        return dict(reml=lambda m, a, s: m.reml(jitter(m.theta * 0 + np.array(v), s)), gradient=lambda m, a, s: m.gradient(jitter(m.theta * 0 + np.array(v), s)))
    add("gaussam", "additive", smooth, "pygam.gaussian_additive_model.GaussianAdditiveModel", lambda c, a: c("y~1+s(x1,kind='cr')", a["data"]), f0, am, evals=am_evals([1.0, 0.2]), refit="close", cost=3, alts=[lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=2))))])
    add("gam", "additive", smooth, "pygam.gam.GAM", lambda c, a: c("yp~x2+s(x1,kind='cr')", a["data"], family=imp("pygam.gam.Gamma")(link=imp("pyglm.links.LogLink"))), f0, am,
        evals=am_evals([1.0, 0.2]), refit="close", cost=3, alts=[lambda m, a: m.fit(approx_hess=True), lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=2))))])
    add("gauls", "additive", smooth, "pygam.gauls.GauLS", lambda c, a: c("y~1+s(x1,kind='cr')", "y~1+s(x2,kind='cr')", a["data"]), f0, am, evals=am_evals([1.0, 0.2]), refit="close", cost=6, alts=[lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=2))))])
    # ---- factor analysis
    fa = ["L", "Psi", "Phi", "params", "theta", "se_params", "res", "sumstats", "L_se", "psi", "rho", "Sigma", "chi2_table", "incrimental_fit_indices", "misc_fit_indices", "factor_coefs", "factors"]
    for tag, path in (("fa", "pyfa.factor_analysis.FactorAnalysis"), ("efa", "pyfa.efa.FactorAnalysis")):
        add(tag, "factor", factor, path, lambda c, a: c(a["X"], n_factors=2), f0, fa, refit="close", cost=2)
        add(tag + "-ob", "factor", factor, path, lambda c, a: c(a["X"], n_factors=2, rotation_method="quartimax", rotation_type="oblique"), f0, fa, refit="close", cost=3)
        add(tag + "-or", "factor", factor, path, lambda c, a: c(a["X"], n_factors=2, rotation_method="varimax"), f0, fa, refit="close", cost=3)
    class FA2:
        """the estimator, rotation and identification objects of pyfa2, used the way its simulation driver uses them"""

        def __init__(self, est, kind, solver, a):
            p, m = a["X"].shape[1], 2
            rot = imp("pyfa2.rotation.%sRotation" % kind)(m)
            crit = imp("pyfa2.criterion.GCFCriterion")("varimax" if kind == "Ortho" else "quartimax", p, m)
            self.est, self.ident, self.n = est, imp("pyfa2.identification.RotationIdentification")(rot, crit, solver=solver), len(a["X"])
            self.layout = imp("pyfa2.layout.ParamLayout")(p, m)

        def fit(self):
            out = self.est.fit_psi()
            psi, fit = out["psi"], self.ident.fit(out["Lambda"])
            L, Phi = fit["L"], fit["Phi"]
            self.theta = self.layout.pack(L, Phi, psi)
            H = self.est.hessian(self.theta)
            inf = importlib.import_module("pystatsm.pyfa2.inference")
            self.cov = inf.param_cov(H, self.ident.d_constraint(self.theta), self.ident.free_mask(), self.n)
            self.se, self.F = inf.se_from_cov(self.cov), self.est.F(self.theta)
            self.psi, self.L, self.Phi = psi, L, Phi
    fa2 = {k: (lambda k: lambda m, a, s: getattr(m.est, k)(jitter(np.full(m.est.p, 0.5), s)))(k) for k in ("loglike_psi", "grad_psi", "hess_psi", "loadings_from_psi")}
    fa2.update({k: (lambda k: lambda m, a, s: getattr(m.est, k)(jitter(m.layout.pack(np.cos(np.arange(m.est.p * 2)).reshape(-1, 2), np.eye(2), np.full(m.est.p, 0.5)), s)))(k)
                for k in ("F", "grad", "hessian", "sigma", "score_jacobian")})
    for kind in ("Ortho", "Oblique"):
        add("fa2-" + kind.lower()[:2], "factor", factor, "pyfa2.likelihood.MLEstimator",
            lambda c, a, kind=kind: FA2(c(np.cov(a["X"].values, rowvar=False, bias=True), 2), kind, "gpa", a), f0, ["psi", "L", "Phi", "theta", "cov", "se", "F"], cost=2, evals=fa2)
    # ---- structural equations
    se = ["theta", "free", "res", "res_free", "mats", "ll", "se_params", "sumstats"]
    hs = lambda m, a: m.fit(use_hess=True, minimize_options=given(dict(verbose=0)))
    add("sem", "sem", struct, "pysem2.sem.SEM", lambda c, a: c(SEMF, a["data"]), hs, se, refit="close", cost=4,
        evals=dict(fit_func=lambda m, a, s: m.fit_func(jitter(m.transform_free_to_theta(m.free_df["start"].fillna(0).values), s)),
                   gradient=lambda m, a, s: m.gradient(jitter(m.transform_free_to_theta(m.free_df["start"].fillna(0).values), s))), alts=[lambda m, a: m.fit(use_hess=True, minimize_options=given(dict(maxiter=3))), lambda m, a: m.fit(use_hess=True, robust_se=True, minimize_options=given(dict(verbose=0)))])
    add("sem-g", "sem", struct_groups, "pysem2.sem.SEM", lambda c, a: c(SEMF, a["data"], model_spec_kws=a["spec_kws"]), hs, se, refit="close", cost=6)



    add("sem-1", "sem", struct_matrices, "pysem.sem.SEM", lambda c, a: c(a["Lambda"], a["Beta"], a["Phi"], a["Psi"], data=a["data"]), f0,
        ["theta", "se_theta", "res", "fit_indices", "Sigma", "test_stat"], refit="close", cost=4, alts=[lambda m, a: m.fit(use_hess=True), lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=3))))])
    # ---- elastic net
    add("elnet", "elnet", sparse_reg, "pyglmnet.glmen2.ElasticNetGLM", lambda c, a: c(a["X"], a["y"], imp("pyglm.families.Gaussian")()), lambda m, a: m.fit(n_lambdas=12, cv=4),
        ["beta", "betas", "lambdas", "f_paths", "lmin", "beta_path", "dev_ratios"], cost=2, alts=[lambda m, a: m.fit(n_lambdas=5, cv=3)])
    add("elnet-b", "elnet", sparse_reg, "pyglmnet.glmen2.ElasticNetGLM", lambda c, a: c(a["X"], a["yb"], imp("pyglm.families.Binomial")()), lambda m, a: m.fit(n_lambdas=12, cv=4),
        ["beta", "betas", "lambdas", "f_paths", "lmin", "beta_path", "dev_ratios"], cost=3, alts=[lambda m, a: m.fit(n_lambdas=5, cv=3)])
    add("glmen", "elnet", sparse_reg, "pyglmnet.glmen.GLMEN", lambda c, a: c(X=a["X"], y=a["y"], family="gaussian"), lambda m, a: m.fit(0.1), ["beta", "active", "fvals"], alts=[lambda m, a: m.fit(0.5), lambda m, a: m.fit(0.05, alpha=0.5)])
    add("glmen-cv", "elnet", sparse_reg, "pyglmnet.glmen.GLMEN", lambda c, a: c(X=a["X"], y=a["yb"], family="binomial"), lambda m, a: dealt(lambda: m.fit_cv(cv=4)),
        ["beta", "beta_path", "f_path", "lambdas", "bfits", "lambda_min"], cost=4)
    # ---- other
    add("polychoric", "latent", ordinals, "pylvcorr.lvcorr.Polychoric", lambda c, a: c(a["data"]), f0, ["R", "rho_hat", "se_rho", "rho", "corr", "res"], cost=3)
    add("polychoric-corr", "latent", ordinals, "pylvcorr.lvcorr.PolychoricCorr", lambda c, a: c(a["data"]), f0, ["R", "rho_hat", "rho", "corr", "res"], cost=3)
    add("polychor", "latent", ordinals, "pylvcorr.polychoric.Polychor", lambda c, a: c(a["data"]), f0, ["R", "rho", "res", "acov", "vcov", "rhos", "tau"], cost=3)
    add("polychor2", "latent", ordinals, "pylvcorr.polychoric2.Polychor", lambda c, a: c(a["data"]), f0, ["R", "rho", "res", "acov", "vcov", "rhos", "tau"], cost=3)
    add("polyserial", "latent", serial, "pylvcorr.lvcorr.Polyserial", lambda c, a: c(x=a["x"], y=a["y"]), f0, ["rho_hat", "se_rho", "rho", "res"], cost=2)
    add("robust", "robust", reg, "pyrobust.rls.RobustLM", lambda c, a: c("y~x1+x2", a["data"]), f0, ["beta", "res", "params", "scale", "se_beta"], cost=2, alts=[lambda m, a: m.fit(opt_kws=given(dict(options=dict(maxiter=2))))])
    add("robust-s", "robust", reg, "pyrobust.rls.RobustSLM", lambda c, a: c("y~x1+x2", a["data"]), lambda m, a: setattr(m, "dst_out", m.fit(n_iters=20, rng=np.random.default_rng(5))),
        ["dst_out"], cost=2)
    add("cca", "cca", views, "pyscca.base_cca.CCA", lambda c, a: c(a["X"], a["Y"]), lambda m, a: m._fit(), ["Wx", "Wy", "rho", "rhos", "A", "B", "W"], alts=[lambda m, a: m._fit(n_comps=2)])
    add("scca", "cca", views, "pyscca.scca.SCCA", lambda c, a: c(a["X"], a["Y"]), lambda m, a: setattr(m, "dst_out", m._fit(0.3, 0.3, n_comps=2)), ["dst_out"], cost=2)
    add("mvols-mle", "linear", multi, "pyglm2.mvols.MVOLS", lambda c, a: c("y1+y2~x1+x2", a["data"]), lambda m, a: m.fit(method="mle"), ["params", "res", "llf"], cost=2,
        refit="close")
    add("ica", "ica", views, "pyica.ica.ICA", lambda c, a: (np.random.seed(5), c(a["X"], n_comps=2))[1], lambda m, a: m.fit(maxiters=50), ["W", "A", "S"], cost=2, alts=[lambda m, a: m.fit(maxiters=2)])
    return out, missing


SCRATCH = ("opt", "hist", "optimizer", "_opt", "optr", "optf", "optn")       # traces of the optimiser, not reported results


def reported(m, before, attrs):
    """names of what a fit reports: what it added to the object, and the entry's own list"""
    new = [k for k in vars(m) if k not in before and not k.startswith("_")] + [k for k in attrs if hasattr(m, k)]
    return sorted(k for k in set(new) if not any(s in k.lower() for s in SCRATCH))


def read(m, attrs):
    """what a fit reported, as plain arrays"""
    out = {}
    for k in attrs:
        if hasattr(m, k):
            flatten(k, getattr(m, k), out)
    return out


def flatten(key, v, out):
    if isinstance(v, dict):
        for k in v:
            flatten("%s[%s]" % (key, k), v[k], out)
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            flatten("%s[%d]" % (key, i), x, out)
    elif isinstance(v, (pd.DataFrame, pd.Series)):
        vals = v.values
        out[key] = np.array([to_float(x) for x in vals.reshape(-1)]).reshape(vals.shape)
        out[key + ".index"] = "|".join(map(str, v.index))
    elif hasattr(v, "toarray"):
        out[key] = v.toarray().astype(float)
    elif isinstance(v, (np.ndarray, float, int, np.number, bool, np.bool_)):
        a = np.asarray(v)
        if a.dtype.kind in "fiub":
            out[key] = a.astype(float)
        elif a.dtype.kind in "OUS":
            out[key] = np.array([to_float(x) for x in a.reshape(-1)]).reshape(a.shape)


def to_float(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return float(int.from_bytes(str(x).encode()[:6].ljust(6, b" "), "big") % 9973)
