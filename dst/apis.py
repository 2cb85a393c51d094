"""The parts of the library that are not models: functions and helper objects that take the caller's arrays, and the
functions and simulators that take a random generator.  A Use is data(g) -> caller arguments, make(a) -> object (or
None) and calls: label -> f(o, a, s, rng)."""
import importlib
import numpy as np
import pandas as pd
from .given import given
from .zoo import imp


class Use:
    def __init__(self, name, data, make, calls, rng=()):
        self.name, self.data, self.make, self.calls, self.rng = name, data, make, calls, set(rng)


def mod(path):
    return importlib.import_module("pystatsm." + path)


def spd(g, p, lo=0.5):
    A = g.normal(size=(p, p))
    return A @ A.T / p + lo * np.eye(p)


def corr(g, p):
    S = spd(g, p)
    d = 1 / np.sqrt(np.diag(S))
    return S * np.outer(d, d)


def uses():
    out, missing = [], {}

    def add(name, data, build, rng=()):
        """build() -> (make, calls); imports happen there"""
        try:
            make, calls = build()
        except Exception as e:
            missing[name] = repr(e)
            return
        out.append(Use(name, data, make, calls, rng))
    none = lambda a: None

    # ---------------------------------------------------------------- families and links
    def famdata(kind):
        def data(g, n=8):
            mu = {"unit": g.uniform(0.1, 0.9, n), "pos": g.uniform(0.5, 3, n), "real": g.normal(size=n)}[kind]
            y = {"unit": (g.uniform(size=n) < 0.5).astype(float), "pos": np.round(g.uniform(1, 5, n)), "real": g.normal(size=n)}[kind]
            return dict(mu=mu, y=y, weights=g.uniform(0.5, 2, n), eta=g.uniform(0.2, 1.0, n))
        return data
    for pk in ("pyglm2", "pyglm"):
        for nm, kind in (("Gaussian", "real"), ("Binomial", "unit"), ("Poisson", "pos"), ("Gamma", "pos"), ("NegativeBinomial", "pos"), ("InverseGaussian", "pos")):
            def build(pk=pk, nm=nm):
                F = imp(pk + ".families." + nm)
                calls = {}
                for f in ("loglike", "full_loglike", "deviance", "deviance_resid", "pearson_resid", "pearson_chi2", "signed_resid", "get_ghw", "get_ehw", "gw", "hw", "variance"):
                    if hasattr(F, f) and not (pk == "pyglm" and f in ("variance", "deviance")):
                        calls[f] = (lambda f: lambda o, a, s, r: getattr(o, f)(a["mu"], weights=a["weights"]) if f == "variance" else getattr(o, f)(a["y"], a["mu"], weights=a["weights"]))(f)
                if pk == "pyglm":
                    for f in ("da_dmu", "dw_deta", "d2w_deta2", "get_w", "get_g", "deviance"):
                        calls[f] = (lambda f: lambda o, a, s, r: getattr(o, f)(a["y"], mu=a["mu"]))(f)
                for f in ("inv_link", "dinv_link", "d2inv_link"):
                    if f == "dinv_link" and pk == "pyglm2" and nm == "Gaussian":
                        continue
                    calls[f] = (lambda f: lambda o, a, s, r: getattr(o, f)(a["eta"]))(f)
                for f in ("link", "dlink", "d2link", "var_func", "dvar_dmu", "d2var_dmu2"):
                    calls[f] = (lambda f: lambda o, a, s, r: getattr(o, f)(a["mu"]))(f)
                calls["rvs"] = lambda o, a, s, r: o.rvs(a["mu"], rng=r)
                return (lambda a: F()), calls
            add("family-%s-%s" % (pk, nm), famdata(kind), build, rng=["rvs"])
    # ---------------------------------------------------------------- covariance transforms
    def covdata(p=3):
        def data(g):
            S = spd(g, p)
            V = S[np.tril_indices(p)[::-1]]
            return dict(S=S, R=corr(g, p), x=V.copy(), l=np.array(corr(g, p)[np.tril_indices(p, -1)]), p=p)
        return data
    for nm, key in (("CovCorr", "S"), ("CholeskyCov", "S"), ("LogScale", "S"), ("CorrCholesky", "R"), ("UnconstrainedCholeskyCorr", "R")):
        def build(nm=nm, key=key):
            T = imp("utilities.cov_transform." + nm)
            la = mod("utilities.linalg_operations")

            def arg(a):
                return given(np.array(la._vech(a[key]) if key == "S" else a["l"]))
            calls = {}
            for f in ("_fwd", "_jac_fwd", "_hess_fwd"):
                calls[f] = (lambda f: lambda o, a, s, r: getattr(o, f)(arg(a)))(f)
            for f in ("_rvs", "_jac_rvs", "_hess_rvs"):
                calls[f] = (lambda f: lambda o, a, s, r: getattr(o, f)(given(np.array(o._fwd(np.array(arg(a)))))))(f)
            return (lambda a: T(a["p"])), calls
        add("transform-" + nm, covdata(), build)

    def build():
        pt = mod("utilities.param_transforms")
        la = mod("utilities.linalg_operations")
        calls = {}
        for nm in ("CholeskyCov", "CovCorr", "LogScale"):
            T = getattr(pt, nm, None)
            if T is None:
                continue
            for f in ("_fwd", "_jac_fwd", "_hess_fwd"):
                calls[nm + f] = (lambda T, f: lambda o, a, s, r: getattr(T(a["p"]), f)(given(np.array(la._vech(a["S"])))))(T, f)
        return none, calls
    add("param-transforms", covdata(), build)
    # ---------------------------------------------------------------- linear algebra
    def lindata(g, n=9, p=4):
        X = g.normal(size=(n, p))
        return dict(X=X, Y=g.normal(size=(n, 2)), y=g.normal(size=n), w=g.uniform(0.5, 2, n), S=spd(g, p), R=corr(g, p), s=g.uniform(0.5, 2, p), v=g.normal(size=p * (p + 1) // 2),
                    l=g.normal(size=p * (p - 1) // 2) * 0.3, L=np.linalg.cholesky(spd(g, p)), A=g.normal(size=(p, p)))

    def build():
        la, du, cu = mod("utilities.linalg_operations"), mod("utilities.data_utils"), mod("utilities.cov_utils")
        c = {}

        def one(m, f, *keys, **kw):
            if hasattr(m, f):
                c[f] = lambda o, a, s, r: getattr(m, f)(*[a[k] for k in keys], **kw)
        for f in ("vec", "vech", "vecl", "_vec", "_vech", "_vecl", "vdg", "eighs", "inv_sqrt", "mat_sqrt", "dmat_exp", "lower_half_vec"):
            one(la, f, "S")
        for f in ("invech", "_invech", "invech_chol"):
            one(la, f, "v")
        for f in ("invecl", "_invecl", "inv_lower_half_vec", "lhv_row_norms"):
            one(la, f, "l")
        one(la, "wcrossp", "X", "w")
        one(la, "wdcrossp", "X", "w", "Y")
        one(la, "wls_chol", "X", "y", "w")
        one(la, "wls_qr", "X", "y", "w")
        one(la, "nwls", "X", "y", "w")
        one(la, "lsqr", "X", "y")
        one(la, "cproject", "X")
        one(la, "diag_outer_prod", "X", "X")
        for f in ("center", "standardize", "csd", "_csd", "cov", "corr", "_col_mean", "_row_sum", "ssq", "flip_signs", "_check_type", "_check_np", "welford_variance", "welford_cov"):
            one(du, f, "X")
        c["cov2"] = lambda o, a, s, r: du.cov(a["X"], a["Y"])
        c["corr2"] = lambda o, a, s, r: du.corr(a["X"], a["Y"])
        one(du, "scale_diag", "S", "s")
        one(du, "scale_dg", "S", "s")
        one(du, "norm_diag", "S")
        one(du, "normalize_xtrx", "A", "R")
        one(cu, "project_psd", "A")
        one(cu, "near_psd", "R")
        one(cu, "_whiten", "X")
        one(cu, "_svd_cov_transform", "S")
        c["_exact_cov"] = lambda o, a, s, r: cu._exact_cov(a["X"], mean=given(np.zeros(4)), cov=a["S"])
        one(cu, "cov_sample_cov", "X")
        one(cu, "multivar_marginal_kurtosis", "X")
        one(cu, "corr_acov_neudecker", "R")
        one(cu, "corr_acov_browne", "R")
        return none, c
    add("linalg", lindata, build)

    def build():
        fu = mod("utilities.func_utils")
        c = {}
        for f, ks in (("poisson_logp", ("k", "m")), ("norm_cdf", ("x",)), ("norm_pdf", ("x",)), ("soft_threshold", ("x", "t")), ("expit", ("x",)), ("sum_preserving_round", ("m",)),
                      ("sizes_to_inds", ("k",)), ("sizes_to_slice_vals", ("k",)), ("binorm_cdf", ("x", "z", "r")), ("binorm_pdf", ("x", "z", "r"))):
            if hasattr(fu, f):
                c[f] = (lambda f, ks: lambda o, a, s, r: getattr(fu, f)(*[a[k] for k in ks]))(f, ks)
        c["quantile_cut"] = lambda o, a, s, r: fu.quantile_cut(a["x"], 3)
        c["handle_default_kws"] = lambda o, a, s, r: fu.handle_default_kws(a["kw"], a["dkw"])
        c["allocate_from_proportions"] = lambda o, a, s, r: fu.allocate_from_proportions(11, a["prop"])
        c["sum_preserving_min"] = lambda o, a, s, r: fu.sum_preserving_min(a["m"] * 2, 1)
        return none, c
    add("func-utils", lambda g: dict(x=g.normal(size=7), z=g.normal(size=7), k=g.integers(1, 5, size=7), m=g.uniform(1, 4, size=7), t=0.3, r=0.4, prop=np.array([0.5, 0.3, 0.2]),
                                     kw=dict(a=1), dkw=dict(a=0, b=dict(c=2))), build)

    def build():
        nd = mod("utilities.numerical_derivs")
        f = lambda x: float(np.sum(np.sin(x) * np.arange(1, len(x) + 1)) + np.prod(x))
        F = lambda x: np.array([np.sum(x**2), np.prod(x)])
        c = {k: (lambda k: lambda o, a, s, r: getattr(nd, k)(f, a["x"]))(k) for k in ("fo_fc_fd", "so_fc_fd", "fo_fc_cd", "so_fc_cd", "grad_approx", "fd_derivative") if hasattr(nd, k)}
        c["jac_approx"] = lambda o, a, s, r: nd.jac_approx(F, a["x"])
        c["hess_approx"] = lambda o, a, s, r: nd.hess_approx(lambda x: np.array(f(x)), a["x"])
        c["so_gc_cd"] = lambda o, a, s, r: nd.so_gc_cd(lambda x: np.cos(x), a["x"])
        c["so_gc_fd"] = lambda o, a, s, r: nd.so_gc_fd(lambda x: np.cos(x), a["x"])
        c["jac_cs"] = lambda o, a, s, r: nd.jac_cs(lambda x: np.cos(x), a["x"])
        return none, c
    add("numerical-derivs", lambda g: dict(x=g.normal(size=3)), build)

    def build():
        sp_, sm = mod("utilities.splines"), mod("utilities.special_mats")
        c = {}
        for k in ("cr", "cc"):
            nm = dict(cr="_get_crsplines", cc="_get_ccsplines")[k]
            c[nm] = (lambda nm: lambda o, a, s, r: getattr(sp_, nm)(a["x"], 6))(nm)
        c["absorb"] = lambda o, a, s, r: sp_.absorb_constraints(a["q"], a["X"], a["S"])
        c["scale"] = lambda o, a, s, r: sp_.get_penalty_scale(a["X"], a["S"])
        for nm in ("apply_lmat1", "apply_dmat1"):
            c[nm] = (lambda nm: lambda o, a, s, r: getattr(sm, nm)(a["K"], n=3))(nm)
        c["kmat1"] = lambda o, a, s, r: sm.apply_kmat1(a["K"], 3, 3)
        for cls in ("EliminationMatrix", "DuplicationMatrix"):
            c[cls] = (lambda cls: lambda o, a, s, r: getattr(sm, cls)(3).apply(a["K"]))(cls)
        c["CommutationMatrix"] = lambda o, a, s, r: sm.CommutationMatrix(3, 3).apply(a["K"])
        return none, c
    add("splines-matrices", lambda g: dict(x=g.uniform(size=40), q=g.normal(size=(4, 1)), X=g.normal(size=(20, 4)), S=spd(g, 4), K=g.normal(size=(9, 9))), build)
    # ---------------------------------------------------------------- rotations and factor pieces
    def build():
        ro, cr = mod("pyfa2.rotation"), mod("pyfa2.criterion")
        so, idn, al, inf = mod("pyfa2.solvers"), mod("pyfa2.identification"), mod("pyfa2.alignment"), mod("pyfa2.inference")
        r1 = mod("pyfa.rotation")
        C = lambda: cr.GCFCriterion("varimax", 6, 2)
        c = dict(Q=lambda o, a, s, r: C().Q(a["A"]), dQ=lambda o, a, s, r: C().dQ(a["A"]), d2Q=lambda o, a, s, r: C().d2Q(a["A"]),
                 target=lambda o, a, s, r: cr.TargetCriterion(a["H"]).dQ(a["A"]), targetW=lambda o, a, s, r: cr.TargetCriterion(a["H"], a["W"]).Q(a["A"]),
                 gpa=lambda o, a, s, r: so.GPA(C(), (ro.OrthoRotation, ro.ObliqueRotation)[s % 2](2)).solve(a["A"], a["T"]),
                 cayley=lambda o, a, s, r: so.CayleySolver(C(), ro.OrthoRotation(2)).solve(a["A"]),
                 ident=lambda o, a, s, r: idn.RotationIdentification(ro.OrthoRotation(2), C()).fit(a["A"]),
                 canon=lambda o, a, s, r: idn.CanonicalIdentification(6, 2).fit(a["A"], a["psi"]),
                 dcon=lambda o, a, s, r: (ro.OrthoRotation, ro.ObliqueRotation)[s % 2](2).d_constraint(a["A"], a["Phi"], C()),
                 align=lambda o, a, s, r: al.align_model(a["A"], a["H"], Phi=a["Phi"], L_se=a["W"], Phi_se=a["Phi"]),
                 empcov=lambda o, a, s, r: inf.empirical_cov_vech_S(a["X"]),
                 gcf1=lambda o, a, s, r: r1.GeneralizedCrawfordFerguson(a["A"], "varimax", ("ortho", "oblique")[s % 2]).fit(),
                 target1=lambda o, a, s, r: r1.TargetRotation(a["A"], a["H"]).fit())
        if hasattr(mod("pyfa"), "align_loadings") or True:
            try:
                a1 = mod("pyfa.align_loadings")
                c["align1"] = lambda o, a, s, r: a1.align_model_matrices(a["H"], a["A"], a["Phi"], a["W"], a["Phi"])
            except Exception:
                pass
        return none, c
    add("rotation", lambda g: dict(A=g.normal(size=(6, 2)), H=g.normal(size=(6, 2)), W=g.uniform(0.5, 1, size=(6, 2)), T=np.linalg.qr(g.normal(size=(2, 2)))[0], psi=g.uniform(0.3, 0.7, 6),
                                   Phi=np.array([[1, 0.3], [0.3, 1.0]]), X=g.normal(size=(30, 3))), build)

    def build():
        L = imp("pyfa2.likelihood.MLEstimator")

        def theta(o, a):
            return given(o.layout.pack(a["A"], a["Phi"], a["psi"]))
        c = {f: (lambda f: lambda o, a, s, r: getattr(o, f)(theta(o, a)))(f) for f in ("F", "grad", "hessian", "sigma", "dsigma", "score_jacobian")}
        c["meat"] = lambda o, a, s, r: o.meat(theta(o, a), n_obs=50)
        for f in ("loglike_psi", "grad_psi", "hess_psi", "loadings_from_psi"):
            c[f] = (lambda f: lambda o, a, s, r: getattr(o, f)(a["psi"]))(f)
        c["fit_psi"] = lambda o, a, s, r: o.fit_psi(a["psi"])
        return (lambda a: L(a["S"], 2)), c
    add("fa2-likelihood", lambda g: dict(S=corr(g, 5), A=g.normal(size=(5, 2)), psi=g.uniform(0.3, 0.7, 5), Phi=np.array([[1, 0.3], [0.3, 1.0]])), build)
    # ---------------------------------------------------------------- robust, independence, misc
    def build():
        me, de = mod("pyrobust.m_estimators"), mod("pyrobust.dispersion_estimators")
        c = {}
        for cls in ("Huber", "Bisquare"):
            for f in ("rho", "psi", "phi", "weights"):
                c[cls + f] = (lambda cls, f: lambda o, a, s, r: getattr(getattr(me, cls)(), f)(a["x"]))(cls, f)
            c[cls + "scale"] = (lambda cls: lambda o, a, s, r: getattr(me, cls)().m_estimate_scale(a["x"], n_iters=5))(cls)
            c[cls + "irls"] = (lambda cls: lambda o, a, s, r: getattr(me, cls)().irls_step(a["X"], a["x"], a["beta"]))(cls)
        for f in ("gmd", "gmd2", "gmd3", "mad", "qn_estimator", "qn_estimator2", "sn", "sn_estimator", "sn_estimator2", "sn_naive", "_median_1d"):
            if hasattr(de, f):
                c[f] = (lambda f: lambda o, a, s, r: getattr(de, f)(a["x"]))(f)
        return none, c
    add("robust-pieces", lambda g: dict(x=g.normal(size=21), X=g.normal(size=(21, 2)), beta=g.normal(size=2)), build)

    def build():
        it = mod("misc.independence_tests")
        la = mod("pyglmnet.lars")
        eu = mod("pyglmnet.eln_utils")
        c = dict(u_biased=lambda o, a, s, r: it._u_center_biased(a["D"].copy()), lars=lambda o, a, s, r: la.lars(a["X"], a["y"]),
                 lars2=lambda o, a, s, r: la.lars(a["X"], a["y"], method="lars", normalize=True),
                 kfold=lambda o, a, s, r: eu.kfold_indices(20, 4, a["yb"], categorical=bool(s % 2), randomize=True, random_state=r),
                 folds=lambda o, a, s, r: eu.crossval_mats(a["X"], a["yb"], 20, 4, categorical=bool(s % 2)),
                 process_cv=lambda o, a, s, r: eu.process_cv(a["F"], a["lam"]))
        return none, c
    add("misc", lambda g: dict(D=spd(g, 6), X=g.normal(size=(20, 3)), y=g.normal(size=20), yb=(g.uniform(size=20) < 0.5).astype(float), F=g.uniform(size=(6, 4)), lam=np.sort(g.uniform(size=6))[::-1].copy()),
        build, rng=["kfold"])
    # ---------------------------------------------------------------- random matrices and variates
    def build():
        ra, cu = mod("utilities.random"), mod("utilities.cov_utils")
        c = dict(students_t=lambda o, a, s, r: ra.students_t(0.0, 1.0, nu=4, size=6, rng=r), cauchy=lambda o, a, s, r: ra.cauchy(0.0, 1.0, size=6, rng=r),
                 multivariate_t=lambda o, a, s, r: ra.multivariate_t(a["mu"], a["S"], nu=5, size=6, rng=r),
                 r_lkj_cholesky=lambda o, a, s, r: ra.r_lkj_cholesky(eta=1.5, n=2, dim=2 + s, rng=r), r_lkj=lambda o, a, s, r: ra.r_lkj(eta=1.5, n=2, dim=2 + s, rng=r),
                 _special_ortho=lambda o, a, s, r: ra._special_ortho(3 + s, rng=r), _ortho_norm=lambda o, a, s, r: ra._ortho_norm(5, 3, rng=r),
                 get_eig_corr=lambda o, a, s, r: cu.get_eig_corr(a["u"], rng=r), get_lkj_corr=lambda o, a, s, r: cu.get_lkj_corr(4, 1.0, given(dict(rng=r))))
        return none, c
    add("random", lambda g: dict(mu=g.normal(size=3), S=spd(g, 3), u=np.array([1.6, 0.9, 0.5])), build,
        rng=["students_t", "cauchy", "multivariate_t", "r_lkj_cholesky", "r_lkj", "_special_ortho", "_ortho_norm", "get_eig_corr", "get_lkj_corr"])

    def build():
        c = {}
        for m in ("misc.shash1", "misc.shashr"):
            c[m[5:]] = (lambda f: lambda o, a, s, r: f(0.0, 1.0, 0.3, 0.2, size=6, rng=r))(imp(m + ".rvs"))
        f = imp("misc.skewnorm_dist._rvs")
        c["skewnorm"] = lambda o, a, s, r: f(6, 0.0, 1.0, 0.4, rng=r)
        p2 = mod("pylvcorr.polychoric2")
        c["random_thresholds"] = lambda o, a, s, r: p2.random_thresholds(3, rng=r, min_cat=np.array([2, 2, 2]), max_cat=np.array([5, 5, 5]))
        return none, c
    add("variates", lambda g: dict(), build, rng=["shash1", "shashr", "skewnorm", "random_thresholds"])

    def build():
        fs = mod("pyfa2.simulation")
        c = dict(loadings=lambda o, a, s, r: fs.generate_loadings(6, 2, random=True, rng=r), fcorr=lambda o, a, s, r: fs.generate_factor_corr(2 + s % 2, random=True, rng=r),
                 uniq=lambda o, a, s, r: fs.generate_uniquenesses(6, rng=r), sample=lambda o, a, s, r: o.sample(9, rng=r))
        return (lambda a: fs.FactorModel(a["L"], a["Phi"], a["psi"])), c
    add("fa2-sim", lambda g: dict(L=g.normal(size=(6, 2)), Phi=np.array([[1, 0.3], [0.3, 1.0]]), psi=g.uniform(0.3, 0.7, 6)), build, rng=["loadings", "fcorr", "uniq", "sample"])
    # ---------------------------------------------------------------- simulators
    def build():
        S = imp("pyfa.simulate_factor_model.FactorModelSim")

        def sim(o, a, s, r):
            m = S(6, 2, rng=r)
            m.simulate_cov(loadings_kws=given(dict(random=True)), factor_corr_kws=given(dict(random=bool(s % 2))))
            return m.L, m.Phi, m.Psi, m.simulate_data(n_obs=20, exact=s == 2)

        def fixed(o, a, s, r):
            m = S(6, 2, L=a["L"], Phi=a["Phi"], Psi=a["Psi"], rng=r)
            m.simulate_cov()
            return m.simulate_data(n_obs=20, exact=bool(s % 2))
        return none, dict(sim=sim, fixed=fixed)
    add("fa-sim", lambda g: dict(L=g.normal(size=(6, 2)), Phi=np.array([[1, 0.3], [0.3, 1.0]]), Psi=np.diag(g.uniform(0.3, 0.7, 6))), build, rng=["sim", "fixed"])

    def build():
        S = imp("pyscca.cca_sim.SimCCA")
        return none, dict(given=lambda o, a, s, r: S(4, 5, rhos=a["rhos"], x_corr=a["Sxx"], y_corr=a["Syy"], x_coefs=a["Wx"], y_coefs=a["Wy"], rng=r).simulate_data(20, exact=bool(s % 2)),
                          drawn=lambda o, a, s, r: S(3, 3, rhos=a["rhos3"], rng=r).simulate_data(20))
    add("cca-sim", lambda g: dict(rhos=np.array([0.6, 0.3]), rhos3=np.array([0.5, 0.3, 0.1]), Sxx=corr(g, 4), Syy=corr(g, 5), Wx=g.normal(size=(4, 2)), Wy=g.normal(size=(5, 2))), build, rng=["given", "drawn"])

    def build():
        m2 = mod("pylmm.sim_lmm2")

        def spec(a):
            return m2.SimSpec.from_formula("y ~ x1 + (1+x1|id)", 24, a["beta"], a["G"], 0.7, groupings=a["groupings"],
                                           cov_spec=m2.CovariateSpec(["x1"], a["xm"], a["xc"]))

        def one(o, a, s, r):
            sp_ = spec(a)
            m = m2.MixedModelSim(sp_, rng=r)
            return m.df.values, m.draw(exact_ranefs=bool(s % 2), exact_resids=s == 2), m.theta_true

        def rescale(o, a, s, r):
            m = m2.MixedModelSim(spec(a), rng=r).rescaled(0.3, 0.4)
            return m.draw(), m.theta_true

        def tolmm(o, a, s, r):
            m = m2.MixedModelSim(spec(a), rng=r)
            return m.to_lmm(given(np.array(m.draw()[0]))).data if False else np.asarray(m.draw()[0])
        return none, dict(one=one, rescale=rescale, tolmm=tolmm)
    add("mixed-sim2", lambda g: dict(beta=g.normal(size=2), G=dict(id=spd(g, 2)), groupings=dict(id=np.repeat(np.arange(6), 4)), xm=np.zeros(1), xc=np.eye(1)), build, rng=["one", "rescale", "tolmm"])

    def build():
        S = imp("pylmm.sim_lmm.MixedModelSim")

        def sim(o, a, s, r):
            m = S("y~x1+(1+x1|id)", a["md"], rng=r, var_ratios=None if s == 0 else a["vr"], group_dict={} if s < 2 else a["groups"])
            return m.df.values, m.simulate_response(exact_ranefs=bool(s % 2)), m.theta_true
        return none, dict(sim=sim)
    add("mixed-sim1", lambda g: dict(md=dict(gcov=dict(id=spd(g, 2)), ginfo=dict(id=dict(n_grp=6, n_per=4)), mu=np.zeros(1), vcov=np.eye(1), beta=g.normal(size=2), n_obs=24), vr=np.array([0.3, 0.4]),
                                     groups=dict(id=np.repeat(np.arange(6), 4))), build, rng=["sim"])

    def build():
        S1, S2 = imp("pyglm.glm_sim.LinearModelSim"), imp("pyglm2.model_sim.LinearModelSim")

        def new(o, a, s, r):
            m = S2(n_obs=30, n_var=4, rng=r, seed=None, corr_kws=given(dict(eig_kws=a["eig"])) if s == 1 else None, coef_kws=a["coef"] if s == 2 else None)
            return m.X.values, m.beta, m._simulate_y(m.linpred, 1.0)

        def cats(o, a, s, r):
            m = S2(30, 3, "x0+C(x1)+x2", ["x1"], ["x0", "x1", "x2"], a["levels"], rng=r)
            return m.X.values, m.beta

        def old(o, a, s, r):
            m = S1(30, 3, "x0+C(x1)+x2", ["x1"], ["x0", "x1", "x2"], a["levels"], corr_kws=given(dict(eig_kws=a["eig"])) if s == 1 else None)
            return m.beta
        return none, dict(new=new, cats=cats, old=old)
    add("linear-sim", lambda g: dict(levels=dict(), eig=dict(p_eff=0.5), coef=dict(p_nnz=0.4)), build, rng=["new", "cats"])

    def build():
        f = imp("pyglm2.sim_mvols.generate_mmr_data")
        return none, dict(mmr=lambda o, a, s, r: {k: v for k, v in f(n=20, p=3, q=2, noise=("normal", "t")[s % 2], random_state=r).items() if k != "packer"})
    add("mvols-sim", lambda g: dict(), build, rng=["mmr"])

    def build():
        S = imp("pysem2.model_simulator.SimulatedSEM")
        return none, dict(sim=lambda o, a, s, r: S("f =~ y1 + y2 + y3\ny4 ~ f\nf ~ x1 + x2" if s else "f =~ y1 + y2 + y3\nf ~ x1", 2, 20, 40, rng=r).simulate())
    add("sem-sim", lambda g: dict(), build, rng=["sim"])

    def build():
        S = imp("pylvcorr.polychoric2")
        names = [k for k in vars(S) if isinstance(getattr(S, k), type) and k != "Polychor" and "rng" in getattr(S, k).__init__.__code__.co_varnames]
        cls = getattr(S, names[0])
        meth = [k for k in vars(cls) if not k.startswith("__")]

        def sim(o, a, s, r):
            m = cls(a["R"], a["taus"], rng=r)
            return getattr(m, meth[0])(size=9)
        return none, dict(sim=sim)
    add("polychoric-sim", lambda g: dict(R=corr(g, 2), taus=[np.array([-0.5, 0.5]), np.array([0.0])]), build, rng=["sim"])

    def build():
        S, R = imp("pyglmnet.sparse_model_sim.SparseRegressionModel"), imp("pyrobust.robust_model_sim.RobustRegressionModel")

        def sparse(o, a, s, r):
            m = S(n_obs=20, n_var=6, n_nnz=3, rng=r, rsq=0.4)
            return m.beta, m.simulate_dependent(("gaussian", "binomial")[s % 2], n_samples=1 + s, binom_n=3)

        def robust(o, a, s, r):
            m = R(n_obs=20, beta=a["beta"], rng=r, x_cov=a["S"] if s == 1 else None)
            return m.X, m.simulate_dependent(1 + s)
        return none, dict(sparse=sparse, robust=robust)
    add("sparse-robust-sim", lambda g: dict(beta=g.normal(size=3), S=spd(g, 3)), build, rng=["sparse", "robust"])

    def build():
        lv = mod("pylvcorr.sim_lvcorr")

        def pair(o, a, s, r):
            return lv.LVCorrSim(a["R"], 3 if s else a["bins"], (4, False)[s % 2], rng=r).simulate(20)

        def poly(o, a, s, r):
            q, t = lv.random_thresholds(2, ncat=(None, 5)[s % 2], min_cat=2, max_cat=5, rng=r)
            return list(t.values()), lv.PolycoricSim(a["R"], t, rng=r).simulate_data(20)
        return none, dict(pair=pair, poly=poly)
    add("lvcorr-sim", lambda g: dict(R=corr(g, 2), bins=np.array([0.3, 0.7])), build, rng=["pair", "poly"])

    def build():
        c = {m[5:]: (lambda f: lambda o, a, s, r: f(r, 0.1, 1.2, 0.3, 0.9, size=6))(imp(m + "._rvs")) for m in ("misc.sash", "misc.sinharcsinh_dist")}
        return none, c
    add("sas-variates", lambda g: dict(), build, rng=["sash", "sinharcsinh_dist"])
    def build():
        ra = mod("utilities.random")
        seed = lambda r: int(r.integers(1 << 31))
        return none, dict(exact=lambda o, a, s, r: ra.exact_rmvnorm(a["S"], 12, mu=a["mu"] if s else None, seed=seed(r)), vine=lambda o, a, s, r: ra.vine_corr(3 + s, 1.5, seed=seed(r)))
    add("seeded", lambda g: dict(S=spd(g, 3), mu=g.normal(size=3)), build, rng=["exact", "vine"])

    def build():
        F = imp("pyfa2.sim_factor_model.run")
        return none, dict(run=lambda o, a, s, r: F(6, 2, 60, 2, ("ortho", "oblique")[s % 2], seed=int(r.integers(1 << 31))))
    add("fa2-sim-run", lambda g: dict(), build, rng=["run"])
    # ---------------------------------------------------------------- survey designs
    def build():
        pp, rp, sd = (mod("utilities.complexdesign." + k) for k in ("population", "replication", "sample_design"))

        def pop(a, s, r):
            P = (pp.LinearPopulation, pp.BinomialPopulation)[s % 2]
            return P("y", a["vars"], "x1 + x2", a["beta"], 3, 4, 5, x_cov=a["xcov"], x_mean=a["xmean"], intra_cluster_var=0.3, weight_fn=lambda d: 1.0 + (d["x1"] > 0), rng=r)

        def design(o, a, s, r):
            D = sd.SampleDesign(a["df"], strata="strata", psuind="psu", weight="w", fpc=a["fpc"] if s == 1 else None)
            return D.meat(a["U"]), D.subset(a["mask"]).w, sd.design_sandwich(a["A"], a["U"], D)

        def partial(o, a, s, r):
            D = sd.SampleDesign(a["df"], psuind="psu" if s else None, weight="w")
            return D.meat(a["U"])

        def single(o, a, s, r):
            D = sd.SampleDesign(a["df1"], strata="strata", psuind="psu", weight="w", singleton=("aggregate", "none")[s % 2])
            return D.meat(a["U"])

        def rep(o, a, s, r):
            P = pop(a, s, r)
            ad = rp.WLSAdapter("y ~ x1 + x2")
            R = rp.replicate(P, lambda d: sd.SampleDesign(d, strata="strata", psuind="psu", weight="w"), ad, 3, rng=r, progress=False)
            return R.params, R.Vs
        return none, dict(draw=lambda o, a, s, r: pop(a, s, np.random.default_rng(1)).draw(r), owndraw=lambda o, a, s, r: pop(a, s, r).draw(), design=design, partial=partial, single=single, rep=rep)

    def survey(g):
        df = pd.DataFrame(dict(strata=np.repeat([0, 1, 2], 10), psu=np.repeat(np.arange(10), 3), w=g.uniform(1, 3, 30), x=g.normal(size=30)))
        df.loc[df["psu"] == 3, "strata"] = 0
        df = df.sample(frac=1.0, random_state=3)
        df1 = df.copy()
        df1.loc[df1["psu"] == 9, "strata"] = 7
        df1.loc[df1["psu"] == 0, "strata"] = 8
        return dict(df=df, df1=df1, U=g.normal(size=(30, 2)), A=spd(g, 2), mask=g.uniform(size=30) < 0.5, fpc=np.array([0.1, 0.2, 0.3]), vars=["x1", "x2"], beta=g.normal(size=3), xcov=spd(g, 2), xmean=g.normal(size=2))
    add("survey", survey, build, rng=["draw", "owndraw", "rep"])
    return out, missing
