"""More calls on the models of dst/zoo.py, with arguments the caller owns: predictions on other data, resampling,
profiles, evaluations on a given design.  EXTRAS: entry name prefix -> label -> f(m, a, s)."""
import numpy as np
from .given import given
from .zoo import imp


def v(x, s=0):
    x = np.asarray(x, float)
    return given(x + 0.03 * np.cos(np.arange(x.size).reshape(x.shape) + s))


def rng():
    return np.random.default_rng(11)


def new_x(m, s, X=None):
    X = np.asarray(m.X if X is None else X, float)
    return given(X[: 7 + s].copy())


def build():
    E = {}

    def add(names, **calls):
        for n in names.split():
            E.setdefault(n, {}).update(calls)
    add("ols2", boot=lambda m, a, s: m._bootstrap(2 + s, verbose=False))
    add("ols1 ols1xy", boot=lambda m, a, s: m._bootstrap(3, ssq=bool(s % 2)), jack=lambda m, a, s: m._compute_jackknife_coefs(),
        perm=lambda m, a, s: m.permutation_test(n_perms=4, store_samples=bool(s % 2), verbose=False), loglike=lambda m, a, s: m.loglike(v(m.beta, s), new_x(m, s), given(np.array(m.y[: 7 + s]))),
        predict=lambda m, a, s: m.predict(v(m.beta, s), new_x(m, s)), influence=lambda m, a, s: m.get_influence())
    add("glm2-", boot=lambda m, a, s: m._bootstrap(n_boot=2, verbose=False, rng=rng()), jack=lambda m, a, s: m._jacknife(method="one-step" if s else "optimize", verbose=False),
        loglike=lambda m, a, s: m._loglike(v(m.params, s), given(tuple(m.model_data)) if s == 2 else m.model_data, m.scale_estimator, m.f),
        grad_i=lambda m, a, s: m._gradient_i(v(m.params, s), m.model_data, m.scale_estimator, m.f),
        refit=lambda m, a, s: m._optimize(t_init=v(m.params, s), opt_kws=given(dict(options=dict(maxiter=3)))),
        predict=lambda m, a, s: m._predict(v(m.coefs if hasattr(m, "coefs") else m.params[: m.X.shape[1]], s), new_x(m, s), m.f, coefs_cov=given(np.eye(m.X.shape[1])), predicted_ci=False))
    add("lmglm-", boot=lambda m, a, s: m._bootstrap(n_boot=2, verbose=False, rng=rng()), jack=lambda m, a, s: m._jacknife(method="one-step" if s else "optimize", verbose=False),
        refit=lambda m, a, s: m._optimize(t_init=v(m.params, s), opt_kws=given(dict(options=dict(maxiter=3)))))
    add("glm1-", predict=lambda m, a, s: m.predict(v(m.params, s), kind=("mean", "linpred", "mean")[s]), boot=lambda m, a, s: m.bootstrap(n_boot=2, opt_kws=given({})),
        on_data=lambda m, a, s: (m.loglike(v(m.params, s), given(np.array(m.X)), given(np.array(m.Y))), m.gradient(v(m.params, s), given(np.array(m.X)), given(np.array(m.Y))),
                                 m.hessian(v(m.params, s), given(np.array(m.X)), given(np.array(m.Y)))),
        optim=lambda m, a, s: m._fit_optim(given(dict(options=dict(maxiter=3))), v(m.theta_init, s)), ee=lambda m, a, s: m._fit_estimating_equations(v(m.theta_init, s), n_iters=3),
        manual=lambda m, a, s: m._fit_manual(v(m.theta_init, s)))
    add("clm2", boot=lambda m, a, s: m._bootstrap(n_boot=2, verbose=False, rng=rng()), jack=lambda m, a, s: m._jacknife(verbose=False),
        fit_from=lambda m, a, s: m._fit(v(m.params_init), opt_kws=given(dict(options=dict(maxiter=4)))))
    add("clm1", options=lambda m, a, s: m.fit(optimizer_kwargs=given(dict(options=dict(maxiter=3)))), boot=lambda m, a, s: m.bootstrap(n_boot=2), predict=lambda m, a, s: m.predict(v(m.beta), v(m.theta)) if s else m.predict(),
        evals=lambda m, a, s: (m.loglike(v(m.params), *given((m.B1, m.B2)) if hasattr(m, "B1") else ()), m.gradient(v(m.params)), m.hessian(v(m.params))))
    add("nb2", boot=lambda m, a, s: m.bootstrap(n_boot=2, opt_kws=given(dict(maxiter=5))), predict=lambda m, a, s: m.predict(X=new_x(m, s), params=v(m.params)),
        dev=lambda m, a, s: m.deviance(v(m.params, s)), evals=lambda m, a, s: (m.loglike(v(m.params, s), given(np.array(m.X))), m.gradient(v(m.params, s)), m.hessian(v(m.params, s))))
    add("zip1", evals=lambda m, a, s: (m.loglike(v(m.params, s)), m.gradient(v(m.params, s)), m.hessian(v(m.params, s))), predict=lambda m, a, s: m.predict(v(m.params, s)),
        options=lambda m, a, s: m.fit(opt_kws=given(dict(maxiter=3))))
    add("zip2", fit_from=lambda m, a, s: m._fit(v(m.params), opt_kws=given(dict(options=dict(maxiter=4)))), evals=lambda m, a, s: (m.loglike(v(m.params, s)), m.gradient(v(m.params, s)), m.hessian(v(m.params, s))))
    add("betareg", evals=lambda m, a, s: (m.loglike(v(m.theta, s)), m.gradient(v(m.theta, s)), m.hessian(v(m.theta, s)), m.loglike_elementwise(v(m.theta, s))), predict=lambda m, a, s: m.predict(v(m.theta, s)))
    add("mvols mvols-mle", evals=lambda m, a, s: (m.loglike(v(m.params, s)), m.gradient(v(m.params, s)), m.hessian(v(m.params, s))),
        optimize=lambda m, a, s: m._optimize(t_init=v(m.params, s), opt_kws=given(dict(options=dict(maxiter=3)))))
    # ---- mixed
    th = lambda m, s: v(np.r_[np.array(m.theta) * 0 + np.array([1.3, 0.2, 0.9, 1.1])[: len(m.theta)]], s) if len(m.theta) == 4 else v(np.array([1.2, 0.8]), s)
    add("lmm lmm-ml", hess=lambda m, a, s: m.hessian(th(m, s), reml=bool(s % 2)), hess_c=lambda m, a, s: m.hessian_chol(given(m.transform_theta(th(m, s)))),
        grad_c=lambda m, a, s: (m.gradient_chol(given(m.transform_theta(th(m, s)))), m.loglike_c(given(m.transform_theta(th(m, s))))),
        inverse=lambda m, a, s: m.inverse_transform_theta(given(np.array(m.transform_theta(th(m, s))))), effects=lambda m, a, s: m._compute_effects(th(m, s)),
        pls=lambda m, a, s: m.pls(th(m, s)), vinv=lambda m, a, s: m.vinvcrossprod(given(np.array(m.X)), given(np.array(m.y)), th(m, s)),
        df=lambda m, a, s: m.approx_degfree(given([np.eye(m.X.shape[1])[[0]]])), predict=lambda m, a, s: m.predict(X=given(np.array(m.X)), Z=given(m.Z.copy())),
        options=lambda m, a, s: m.fit(opt_kws=given(dict(maxiter=2)), optimize_kws=given(dict(tol=1e-3)) if s else given({})),
        dense=lambda m, a, s: m._gradient_dense(th(m, s)), ll=lambda m, a, s: m.loglike(th(m, s), reml=bool(s % 2), use_sparse=bool(s // 2)))
    add("lmm2", from_start=lambda m, a, s: m.fit(theta_init=th(m, s), opt_kws=given(dict(maxiter=3))), confint=lambda m, a, s: m.confint(), effects=lambda m, a, s: m.compute_effects(th(m, s)),
        reparam=lambda m, a, s: (m.loglike_reparam(given(m.mme.re_mod.reparam.fwd(th(m, s)))), m.gradient_reparam(given(m.mme.re_mod.reparam.fwd(th(m, s))))),
        v2=lambda m, a, s: m.gradient_v2(th(m, s)), df=lambda m, a, s: m.approx_degfree(given([np.eye(len(m.beta))[[0]]]), theta=th(m, s)) if s else m.approx_degfree(),
        ranefs=lambda m, a, s: (m.random_effects(), m.random_effects_array(), m.random_effects_se(th(m, s))), r2=lambda m, a, s: (m.r_squared(th(m, s)), m.variance_decomposition(th(m, s))),
        vinv=lambda m, a, s: m.vinvcrossprod(given(np.array(m.mme.X)), given(np.array(m.mme.y)), th(m, s)), predict=lambda m, a, s: m.predict(given(np.array(m.mme.X)), given(m.mme.re_mod.Z.copy()), v(m.beta), v(m.u)),
        profile=lambda m, a, s: m.profile(n_points=3, tb=1.0) if s == 2 else None)
    # ---- additive
    add("gaussam gam", pieces=lambda m, a, s: (m.pirls(v(np.ones(len(m.theta) - 1), s)), m.get_wz(given(np.array(m.X.dot(m.beta)))), m.hessian(v(np.array([1.0, 0.2]), s)), m.get_penalty_mat(v(np.ones(len(m.theta) - 1)))),
        options=lambda m, a, s: m.optimize_penalty(opt_kws=given(dict(options=dict(maxiter=2)))), slopes=lambda m, a, s: m.grad_beta_rho(v(m.beta), v(np.ones(len(m.theta) - 1), s)))
    add("gaussam", comps=lambda m, a, s: m.get_smooth_comps(v(m.beta)))
    add("gauls", comps=lambda m, a, s: m.get_smooth_comps(v(m.beta)))
    add("gam", comps=lambda m, a, s: m.get_smooth_comps(beta=v(m.beta), data=given(a["data"].copy()) if s else None))
    add("gauls", pieces=lambda m, a, s: (m.loglike(v(m.beta)), m.grad_ll_beta(v(m.beta)), m.hess_ll_beta(v(m.beta)), m.hessian(v(np.array([1.0, 0.2]), s)), m.grad_beta_rho(v(m.beta), v(np.ones(2), s))),
        options=lambda m, a, s: m.optimize_penalty(opt_kws=given(dict(options=dict(maxiter=2)))), start=lambda m, a, s: m.outer_step(given(np.array(m.get_penalty_mat(np.ones(2)))), v(m.beta), n_iters=3))
    # ---- factor analysis
    add("fa fa-ob fa-or", evals=lambda m, a, s: (m.loglike(v(m.theta, s)), m.gradient(v(m.theta, s)), m.hessian(v(m.theta, s)), m.implied_cov(v(m.theta, s))),
        canon=lambda m, a, s: (m.loglike_canonical(v(np.full(6, 0.5), s)), m.gradient_canonical(v(np.full(6, 0.5), s)), m.hessian_canonical(v(np.full(6, 0.5), s)), m.loadings_from_psi(v(np.full(6, 0.5), s))),
        aug=lambda m, a, s: (m.loglike_augmented(v(m.params, s)), m.gradient_augmented(v(m.params, s)), m.hessian_augmented(v(m.params, s))),
        options=lambda m, a, s: m._fit(opt_kws=given(dict(options=dict(maxiter=2)))))
    add("efa efa-ob efa-or", evals=lambda m, a, s: (m.loglike(v(np.full(6, 0.5), s)), m.gradient(v(np.full(6, 0.5), s)), m.hessian(v(np.full(6, 0.5), s)), m.loadings_from_psi(v(np.full(6, 0.5), s))),
        logs=lambda m, a, s: (m.loglike_exp(v(np.full(6, -0.7), s)), m.gradient_exp(v(np.full(6, -0.7), s)), m.hessian_exp(v(np.full(6, -0.7), s))),
        params=lambda m, a, s: (m.loglike_params(v(m.params, s)), m.gradient_params(v(m.params, s)), m.constraint_derivs(v(m.params, s)), m.hessian_params(v(m.params, s))),
        factors=lambda m, a, s: m.estimate_factors(X=given(np.array(a["X"])), method=("tenBerge", "bartlett", "thurstone")[s]), rotate=lambda m, a, s: m._rotate_loadings(given(np.array(m.A)) if hasattr(m, "A") else None),
        options=lambda m, a, s: m._fit(loglike_opt_kws=given(dict(options=dict(maxiter=3))), rotation_opt_kws=given({})))
    # ---- structural equations
    t0 = lambda m, s: v(m.transform_free_to_theta(m.free_df["start"].fillna(0).values), s)
    add("sem sem-g", hess=lambda m, a, s: m.hessian(t0(m, s)), derivs=lambda m, a, s: (m.dsigma_mu(t0(m, s)), m.fit_func(t0(m, s), per_group=True)),
        from_start=lambda m, a, s: m.fit(theta_init=t0(m, s), minimize_options=given(dict(maxiter=3)), minimize_kws=given(dict(method="trust-constr")) if s else None, use_hess=bool(s % 2)))
    add("sem-1", evals=lambda m, a, s: (m.loglike(v(m.theta, s)), m.gradient(v(m.theta, s)), m.hessian(v(m.theta, s)), m.implied_cov(v(m.theta, s)), m.dsigma(v(m.theta, s))))
    # ---- elastic net
    add("elnet elnet-b", evals=lambda m, a, s: (m.obj_func(v(np.zeros(a["X"].shape[1] + 1), s), 0.1), m.obj_grad(v(np.zeros(a["X"].shape[1] + 1), s), 0.1), m.obj_hess(v(np.zeros(a["X"].shape[1] + 1), s), 0.1)),
        cross=lambda m, a, s: m.fit(n_lambdas=6, cv=3, kws=given(dict(n_iters=200, inner_kws=dict(max_iters=50)))) if s else m.fit(n_lambdas=6, cv=3, kws=given(dict(n_iters=200))))
    add("glmen", predict=lambda m, a, s: m.predict(v(m.beta), given(np.array(m.X)[:5].copy()), intercept=bool(s % 2)), on_data=lambda m, a, s: m.fit(0.1, X=given(a["X"][:30].copy()), y=given(a["y"][:30].copy())))
    # ---- others
    add("polychoric polychoric-corr polychor polychor2", options=lambda m, a, s: m.fit(opt_kws=given(dict(options=dict(maxiter=4)))))
    add("polychor2", acov=lambda m, a, s: m.get_acov())
    add("polychor", acov=lambda m, a, s: m.get_acov())
    add("robust", irwls=lambda m, a, s: m.irwls(theta_init=v(np.zeros(m.X.shape[1] + 1), s), n_iters=5), parts=lambda m, a, s: (m.rho(v(np.zeros(m.X.shape[1] + 1), s)), m.grad(v(np.zeros(m.X.shape[1] + 1), s))))
    add("cca", predict=lambda m, a, s: m.predict(given(a["X"][:6].copy()), given(a["Y"][:6].copy())))
    add("scca", ortho=lambda m, a, s: m._fit(0.3, 0.3, n_comps=2, ortho=bool(s % 2), cca_kws=given(dict(tol=1e-6))), on_data=lambda m, a, s: m._fit(0.3, 0.3, n_comps=1, X=given(a["X"][:40].copy()), Y=given(a["Y"][:40].copy())),
        boot=lambda m, a, s: m.bootstrap(0.3, 0.3, n_boot=2, n_comps=1, cca_kws=given({})), perm=lambda m, a, s: m.permutation_test(0.3, 0.3, n_perms=2, n_comps=1, cca_kws=given({})),
        cross=lambda m, a, s: m.crossval(3, n_comps=1, lambdas=given(np.array([0.2, 0.4])), cca_kws=given({})), starts=lambda m, a, s: m._fit(0.3, 0.3, n_comps=1, wx_init=v(np.ones(5)), wy_init=v(np.ones(5))),
        full=lambda m, a, s: m.fit(3, n_comps=2, cv_kws=given(dict(lambdas=np.array([0.2, 0.4]))), fit_kws=given({})))
    return E


def of(entry, table):
    """the extra calls of one entry"""
    out = {}
    for k, calls in table.items():
        if k == entry.name or (k.endswith("-") and entry.name.startswith(k)):
            out.update(calls)
    return out
