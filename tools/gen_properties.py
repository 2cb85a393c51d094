"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "LMM2: every evaluation history agrees with the marginal likelihood",
     "For any data and random-effects formula that LMM2 accepts (several terms, correlated slopes, crossed or nested groups, optional relationship matrices on the random-effects model), and any sequence of calls on one model object, some of which raise or are interrupted part-way, each call that returns gives the value determined by its own arguments: -2 log likelihood (ML and REML, without the 2*pi constant), its gradient in theta and in the reparametrised vector, GLS fixed effects, their covariance and BLUPs, V^-1 cross products and the C-matrix factor equal those of the dense Gaussian marginal model y ~ N(Xb, ZGZ'+R) up to rounding. No call changes the parameter vector or the data frame it was given or a result returned earlier, and what an array held at an earlier call does not matter.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "every history of evaluations at arbitrary admissible theta, ML or REML, in any order, both sides of the sparse/dense switch, with evaluations at inadmissible points and interrupts at arbitrary lines in between",
     "Tests evaluate each function once or twice at a few thetas on a handful of designs; they never interleave failing or interrupted evaluations on the shared in-place buffers.",
     ["pystatsm/pylmm/re_mod.py", "pystatsm/utilities/cs_kernels.py", "pystatsm/utilities/linalg_operations.py"],
     [("in-place crossproduct / G / C buffer refill before each factorisation", "pystatsm/pylmm/re_mod.py:MMEBlocked.update_crossprods, update_chol, _gradient"),
      ("sparse numeric refactorisation", "MMEBlocked.chol_fac.cholesky_inplace")],
     [("ZtRZ, C, G, R, chol_fac", "persistent buffers overwritten by every evaluation", "MMEBlocked")],
     ["LMM2.loglike", "LMM2.gradient", "LMM2.gradient_v2", "LMM2.compute_effects", "LMM2.vinvcrossprod"])

prop("C02", "LMM: every evaluation history agrees with the marginal likelihood",
     "For any data and random-effects formula that LMM accepts and any sequence of calls on one model object, some of which raise or are interrupted part-way, each call that returns gives the value determined by its own arguments: -2 log likelihood, gradient and Hessian (each for ML and REML, without constants) in theta and in the Cholesky parametrisation, V^-1 cross products, fixed effects with their covariance, and random effects equal those of the dense Gaussian marginal model. The sparse and dense code paths and all documented switches (use_sw, use_sparse, assume_sparse_inverse) agree with each other, and no evaluation changes the theta it was given or a result returned earlier.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "every history of evaluations at arbitrary admissible theta with failing and interrupted evaluations in between",
     "Tests compare a few functions at one theta on one fresh model; cached G/L/R buffers make later results depend on what ran before.",
     ["pystatsm/pylmm/lmm.py", "pystatsm/pylmm/model_matrices.py"],
     [("G, Ginv, L data refilled from theta on each call", "LMM.update_gmat, update_chol"),
      ("V^-1 through Woodbury on the mixed model equations", "LMM.loglike, gradient, hessian")],
     [("Gmat, Rmat, jac_mats", "matrices refilled in place", "LMM")],
     ["LMM.loglike", "LMM.gradient", "LMM.hessian", "LMM._compute_effects"])

prop("C03", "An interrupted or failed fit leaves the model re-fittable to the same answer",
     "For every model class with a fit method (linear, generalized linear, ordinal, negative binomial, mixed, additive, structural equation, factor analysis, elastic net), if a fit is stopped at any point by an exception (keyboard interrupt, out-of-memory, linear algebra failure), fitting the same object again with the same arguments gives the same estimates, standard errors and fit statistics as fitting a freshly built model once. Fitting the same object twice in a row gives the same answer as fitting it once.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "every point inside fit at which an exception can surface, any number of interrupted attempts before the successful one",
     "Tests only run fits that complete; no test stops a fit part-way and retries.",
     ["pystatsm/pylmm/lmm.py", "pystatsm/pylmm/re_mod.py", "pystatsm/pyglm2", "pystatsm/pysem2/sem.py", "pystatsm/pygam/gam.py", "pystatsm/pyfa2/solvers.py", "pystatsm/pyglmnet/glmen2.py"],
     [("fit recomputes everything from the data and start values", "fit/_fit/_optimize/_post_fit of each class")],
     [("theta, params, buffers", "partially updated by an interrupted fit", "model objects")],
     ["fit()"])

prop("C04", "Mixed-model Gibbs sampler: chains are the documented transitions of its draws",
     "Given the stream of random numbers it consumes, every state of a MixedMCMC chain (fixed and random effects, covariance blocks, residual variance, latent variables, thresholds) is the one its conditional distributions define from the previous state, each saved sample is the state it was saved from, and summaries are the statistics of the saved samples. Two runs started from generators in the same state produce identical samples, whatever else uses the global random state, and an interrupted run followed by a fresh run with a new generator equals that run on a fresh object.",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "every stream of random numbers the generator can produce, every response type and random-effects layout",
     "Tests fix one seed and check that posterior means are in a wide band; no test checks a single transition or repeats a run.",
     ["pystatsm/pylmm/glmm_mcmc.py", "pystatsm/utilities/random.py"],
     [("sample_* conditional updates", "MixedMCMC.sample_theta, sample_params, sample_tau, sample_*")],
     [("rng", "generator given by the user", "MixedMCMC")],
     ["MixedMCMC.sample"])

prop("C05", "Bootstrap and jackknife replicates are exactly the refits their draws define",
     "For OLS, GLM and CLM models, whatever indices or residual signs the generator deals, each bootstrap replicate equals the estimate obtained by refitting the same model to the rows (with their weights and offsets) so drawn, and each jackknife replicate the estimate with that one observation left out. The number of replicates is exactly the number asked for, and none is lost, repeated, or filled in from a fit that raised. The model's own data and estimates are unchanged afterwards even when a replicate fails or the run is interrupted.",
     ["schedules", "fault_sequences", "inputs"],
     "every stream of resampling indices, including degenerate resamples, and a failure or interrupt in any replicate",
     "Tests run one seed and check shapes or rough agreement.",
     ["pystatsm/pyglm2/glm.py", "pystatsm/pyglm2/clm.py", "pystatsm/pyglm2/ols.py", "pystatsm/pyglm2/regression_model.py", "pystatsm/pyglm/ols.py"],
     [("per-replicate resample and refit", "_bootstrap, _jacknife of each model")], (),
     ["OLS/GLM/CLM._bootstrap, _jacknife"])

prop("C06", "Permutation tests count exactly the permutations they drew",
     "For the OLS Freedman-Lane permutation test and the dCor and dHSIC independence tests, whatever permutations the generator deals, each permuted statistic equals the statistic recomputed from scratch on the data permuted that way, and the reported p-value is the proportion of permuted statistics that exceed the observed one in absolute value (for family-wise p-values, of permutation maxima over the tested coefficients), so it lies in [0, 1]. The observed statistic equals its textbook definition and the input arrays are unchanged.",
     ["schedules", "inputs"],
     "every stream of permutations, including identity permutations and ties",
     "Tests run one seed and compare rejection only loosely, if at all.",
     ["pystatsm/pyglm2/ols.py", "pystatsm/pyglm/ols.py", "pystatsm/misc/independence_tests.py"],
     [("permute, recompute statistic, count", "_permutation_test, dcorr and dhsic permutation loops")], (),
     ["OLS._permutation_test", "dcorr / dhsic test functions"])

prop("C07", "Parallel kernels give the same result under every schedule",
     "Every numba kernel with a parallel loop (row and column reductions, distances, Gaussian kernels, permutation and bootstrap loops) writes each output element from exactly one iteration, so whatever order or interleaving the iterations are run in, on any number of threads, the result is the one of the sequential loop up to rounding and equals its mathematical definition.",
     ["schedules", "inputs"],
     "every assignment of parallel iterations to threads and every interleaving of their statements",
     "Tests run on one machine with one thread count; a race shows only under particular interleavings.",
     ["pystatsm/utilities/data_utils.py", "pystatsm/misc/independence_tests.py", "pystatsm/utilities/cov_utils.py"],
     [("prange loops", "numba parallel kernels")], (), ["the kernels' return values"])

json.dump  # keep linters quiet
if __name__ == "__main__":
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_properties.py")).read())
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            if not p["anchors"]["state"]: p["anchors"].pop("state")
            if not p["anchors"]["observe_at"]: p["anchors"].pop("observe_at")
            f.write(json.dumps(p) + "\n")
    print(len(P))
