prop("C08", "Complex-survey replication is a faithful, isolated Monte Carlo loop",
     "For any population, design and estimator, each replicate of a replication study uses its own draw from the generator stream, and row r of the results is the estimate and standard error computed from that draw alone: replicates neither leak into each other nor change when another replicate fails or the study is repeated with a generator in the same state. A sample design's frozen layout, subsetting, singleton policy and score-variance ('meat') equal the textbook stratified between-PSU formula computed directly from the data frame, with rows of dropped subsets carrying weight zero, and no frame or weight array passed in is changed.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "every generator stream, layout (strata, PSU, singleton), chain of subsets, and failing replicate",
     "Tests use a balanced frame, one seed and coarse coverage bands.",
     ["pystatsm/utilities/complexdesign"],
     [("replicate loop", "pystatsm/utilities/complexdesign"), ("SampleDesign meat", "pystatsm/utilities/complexdesign")],
     (), ["replicate", "SampleDesign.meat", "Population.draw"])
prop("C09", "Independent model objects do not affect one another",
     "Calls on separately built model objects (mixed, linear, generalized linear, ordinal, structural equation, factor analysis, additive) interleaved in any order, from any number of caller threads and with some of them failing or interrupted part-way, return exactly what each would return if its calls ran alone in the same order. No option dictionary, default argument, class attribute or module-level cache carries anything from one object to another.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of the statements of calls on different objects",
     "Tests run one object at a time in one thread.",
     ["pystatsm/pylmm", "pystatsm/pyglm2", "pystatsm/pysem2", "pystatsm/pyfa2", "pystatsm/utilities/optimizer_utils.py"],
     [("per-instance state only", "constructors of each model class"), ("shared defaults", "pystatsm/utilities/optimizer_utils.py")],
     (), ["public methods of the model classes"])
prop("C10", "Caller data and option arguments are never modified, even by a failed call",
     "Fitting, evaluating, predicting, bootstrapping or simulating with any model class leaves every array, data frame, dictionary and generator-independent argument the caller passed bit-for-bit unchanged, whether the call returns, raises or is interrupted at any point. Calls that omit an options dictionary behave the same however many calls came before.",
     ["crash_points", "fault_sequences", "histories"],
     "every call with every point of interruption",
     "Tests do not snapshot inputs, and never interrupt a call.",
     ["pystatsm/pylmm", "pystatsm/pyglm2", "pystatsm/pysem2", "pystatsm/pyglmnet", "pystatsm/utilities/optimizer_utils.py"],
     [("copy before in-place update", "constructors and fit methods")], (), ["arguments of public calls"])
prop("C11", "A supplied generator is the only source of randomness",
     "Every function or class that takes a random generator (simulators, random matrices, families, cross-validation folds, factor-model, structural-equation, mixed and sparse-model simulations) draws all of its randomness from it: two calls with generators in the same state give identical results whatever the global random state is, and the call leaves the global NumPy random state untouched. Calls with different generator states give different draws.",
     ["schedules", "histories"],
     "every state of the global generators and every seed of the given one, in every call order",
     "Tests check shapes or one seed; a draw from a hidden generator looks random and passes.",
     ["pystatsm/utilities/random.py", "pystatsm/pyglm2/model_sim.py", "pystatsm/pylmm/sim_lmm2.py", "pystatsm/pyfa2/sim_factor_model.py", "pystatsm/pyglmnet/sparse_model_sim.py", "pystatsm/pysem2/model_simulator.py"],
     [("rng argument threaded through", "all simulators")], (), ["simulator outputs"])
prop("C12", "Sparse in-place kernels are right for every buffer-reuse history",
     "For any sparse matrices with the documented patterns, any sequence of in-place sparse additions, products, Kronecker products, tilings, repetitions, format conversions and pattern traces that reuses the same output buffers gives after each call exactly the matrix the dense definition gives, independent of what the buffer held before. Input matrices are unchanged and nothing outside the output's data array is written.",
     ["histories", "inputs"],
     "every sequence of kernel calls over a pool of reused buffers with arbitrary stale content, patterns with empty rows and columns and explicit zeros",
     "Tests call each kernel once on a fresh zero buffer.",
     ["pystatsm/utilities/cython_wrappers.pyx", "pystatsm/utilities/src", "pystatsm/utilities/python_wrappers.py", "pystatsm/utilities/ordered_indices.pyx"],
     [("C kernels with workspaces", "pystatsm/utilities/src/*.c")], (), ["python_wrappers functions"])
prop("C13", "A Cholesky factor object always answers for its last successful factorisation",
     "For any positive definite sparse matrix and any sequence of refactorisations and queries on one factor object, including refactorisations that fail on indefinite matrices or are interrupted, every query that returns (solve in each system, L and LDL factors, permutation, log determinant, inverse) equals the dense answer for the matrix last factorised successfully, in whatever order the queries and representation switches come. The dense fallback answers every query identically.",
     ["histories", "fault_sequences", "inputs"],
     "every history of refactorisation, failed refactorisation and query",
     "Tests factor one matrix and call a few queries once.",
     ["pystatsm/utilities/linalg_operations.py"],
     [("LL'/LDL' representation switching", "pystatsm/utilities/linalg_operations.py factor proxy")],
     [("representation flag", "LL' or LDL' stored numerically", "factor proxy")], ["factor methods"])
prop("C14", "Memoised objectives and cached properties never return a stale value",
     "For any sequence of evaluations of a memoised objective (value, gradient, Hessian) at any points, some of which raise or are interrupted, each call that returns gives the value of the wrapped function at the point it was asked for, even when the previous call at that same point failed or the caller has since changed the array in place. Lazily cached quantities of a model equal the freshly computed ones at every time they are read.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of points, repeated or mutated in place, with a failure in any evaluation",
     "Tests optimise once and never fail inside an evaluation.",
     ["pystatsm/utilities/optimizer_utils.py", "pystatsm/pyfa2/likelihood.py", "pystatsm/pylvcorr/polychoric2.py"],
     [("cache key comparison", "MemoizeJac, MemoizeGradHess")], [("x, _value, jac, hess", "last evaluated point and results", "memoise objects")],
     ["the memoised callables"])
prop("C15", "Cross-validation folds partition the data for every shuffle",
     "Whatever permutation the generator deals, k-fold splits put every observation in exactly one test fold, train and test never overlap, together they cover all rows, and fold sizes differ by at most one (within each class when stratified). Each cross-validated score of the elastic net is the held-out deviance of the model fitted on exactly the training rows, with the regularisation path in the order reported, and the penalty chosen is the one whose mean score is smallest; sparse CCA chooses by the canonical correlations of held-out rows in the same way. Splits already handed out stay as they were.",
     ["schedules", "inputs"],
     "every shuffle, any number of rows and folds",
     "Tests run one seed and look at overall fit.",
     ["pystatsm/pyglmnet/eln_utils.py", "pystatsm/pyglmnet/glmen2.py"],
     [("fold index construction", "eln_utils.kfold_indices, process_xy"), ("cv loop", "glmen2")], (), ["kfold_indices", "cross-validation results"])
prop("C16", "SEM: every evaluation history agrees with the model-implied moments",
     "For any model formula, data and number of groups that the structural equation model accepts and any sequence of evaluations on one object, some raising or interrupted, each call that returns gives the function of its own parameter vector: the implied covariance and mean, the discrepancy (likelihood) per group and pooled, its gradient and Hessian by either method equal those of a direct dense evaluation of (I-B)^-1 Phi (I-B)^-T, nothing left in the shared derivative buffers by earlier calls can change them.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "every history of evaluations at admissible and inadmissible parameter vectors, any method switch and group layout",
     "Tests evaluate once or twice per model at one or two points.",
     ["pystatsm/pysem2/sem.py", "pystatsm/pysem2/model_base.py", "pystatsm/pysem2/derivatives.py"],
     [("buffers refilled on each evaluation", "pystatsm/pysem2/model_base.py")], [("dSm, d2Sm, parameter matrices", "derivative buffers", "SEM")],
     ["SEM.loglike, gradient, hessian"])
prop("C17", "Random matrix and variate generators are valid for every stream",
     "Whatever numbers the underlying generator deals, random correlation matrices are symmetric, positive definite with unit diagonal, random orthogonal matrices are orthogonal (with determinant one where documented), random covariance draws are symmetric positive definite with the documented construction, exact-moment samples have exactly the requested mean and covariance, and truncated draws lie within their bounds. Given an ordinary stream, correlation matrices, (inverse) Wishart, multivariate t, truncated and response-family draws follow the distribution their arguments name.",
     ["schedules", "inputs"],
     "every generator stream including extreme quantiles, every dimension",
     "Tests check a few seeds and dimensions.",
     ["pystatsm/utilities/random.py", "pystatsm/pyfa2/sim_factor_model.py"],
     [("vine, onion, Wishart constructions", "pystatsm/utilities/random.py")], (), ["random generators"])
prop("C18", "Additive models: every evaluation history agrees with the penalised criterion",
     "For any smooth formula, data and response family that the additive models accept and any sequence of evaluations at arbitrary smoothing parameters on one object, some raising or interrupted, each call that returns gives the function of its own argument: penalised coefficients solve the penalised normal equations, and the REML or likelihood criterion and its gradient equal those of a direct dense evaluation. Fitted components, effective degrees of freedom and covariances are those of the fitted coefficients and penalty, and a smooth evaluated at the values of a new frame is the basis at those values times its coefficients. Refitting gives the same answer as a fresh fit.",
     ["histories", "fault_sequences", "inputs"],
     "every history of evaluations at arbitrary smoothing parameters, with failures in between",
     "Tests evaluate derivatives at one point on one model.",
     ["pystatsm/pygam/gam.py", "pystatsm/pygam/gauls.py", "pystatsm/pygam/gaussian_additive_model.py"],
     [("per-call penalty assembly and inner Newton", "GAM, GauLS")], (), ["GAM.reml, gradient, hessian"])
prop("C19", "Factor analysis: every evaluation, fit and rotation agrees with the covariance model",
     "For any correlation matrix and number of factors and any sequence of calls on one factor-analysis estimator, some raising or interrupted, each call that returns gives the function of its own argument: discrepancy, gradient, Hessian, score Jacobian and sandwich middle are those of log|Sigma| + tr(Sigma^-1 S) with Sigma = L Phi L' + Psi (and their concentrated forms), a converged fit is stationary and repeats, and its standard errors are those of the Hessian restricted to the identifying constraints. Every rotation returned is orthogonal (or has unit columns), reproduces L Phi L', never worsens the criterion of the gradient-projection solver and satisfies the criterion's stationarity constraints when convergence is reported; alignment undoes any signed permutation of the factors.",
     ["histories", "fault_sequences", "inputs"],
     "every history of calls with failures in between, on shared estimators, solvers and rotation objects",
     "Tests differentiate at one point and rotate one matrix with fresh objects.",
     ["pystatsm/pyfa2", "pystatsm/pyfa/efa.py", "pystatsm/pyfa/factor_analysis.py", "pystatsm/pyfa/rotation.py"],
     [("workspaces and layouts", "pystatsm/pyfa2/likelihood.py, layout.py"), ("rotation solvers", "pystatsm/pyfa2/solvers.py, rotation.py; pystatsm/pyfa/rotation.py")], (),
     ["MLEstimator methods", "RotationIdentification.fit", "FactorAnalysis.fit"])
prop("C20", "Penalised regression: a fit is the optimum of its penalty whatever came before it",
     "For any data, penalty, mixing ratio, starting values, order of penalties along a path and calls interrupted before, a coordinate-descent elastic-net fit (gaussian or binomial, alone, along a path, refitted in a cross-validation, or through the elastic-net GLM) asked for tight tolerances satisfies the subgradient optimality conditions of its own convex problem: zero subgradient at every non-zero coefficient and the intercept, gradient no larger than the penalty at every zero one. Objective, gradient and Hessian evaluations are those of that problem, the objective never rises along coordinate descent, the path of penalties starts at the smallest penalty that admits no variable, and every knot of a least-angle or lasso path is equicorrelated and the path ends at least squares. No call changes the data it was given.",
     ["histories", "fault_sequences", "inputs"],
     "every history of fits, starts and penalties on shared data and objects, with failures in between",
     "Tests fit one design once from the default start and compare coefficients with stored numbers.",
     ["pystatsm/pyglmnet"], [("active sets, screening and warm starts", "pystatsm/pyglmnet/glmen2.py, gaussian_eln.py, binom_eln2.py, binomial_eln.py"), ("path of least-angle regression", "pystatsm/pyglmnet/lars.py")], (),
     ["ElasticNetGLM", "elnet, cv_glmnet", "binom_elnet, binom_elnet_path", "binom_glmnet, cv_binom_glmnet", "lars"])

NA = []
def na(id, title, statement, text, files, mech, reason):
    prop(id, title, statement, ["inputs"], text, "Unit tests sample a handful of inputs of a function whose domain is continuous.", files, mech)
    NA.append((id, reason))
PURE = "pure function of its arguments: no schedule, clock, fault, randomness or history for a simulator to control; input generation would be property testing, not simulation."
na("N01", "Analytic derivatives equal the derivatives of their functions",
   "For every family, link, likelihood, rotation criterion and covariance parametrisation, the analytic gradient and Hessian equal the derivative of the corresponding value at every interior point.",
   "every parameter value in the interior of the domain", ["pystatsm/pyglm2/families.py", "pystatsm/utilities/cov_transform.py", "pystatsm/pyfa2/criterion.py"], [("closed-form derivatives", "families, links, transforms")], PURE)
na("N02", "Links and parameter transforms invert each other",
   "Every link and its inverse, and every covariance or correlation parameter transform and its inverse, compose to the identity on their domains, and the inverse always yields a valid mean or positive definite matrix.",
   "every value in the domain", ["pystatsm/pyglm2/links.py", "pystatsm/utilities/param_transforms.py", "pystatsm/utilities/unconstrained_chol.py"], [("fwd/rvs pairs", "links, transforms")], PURE)
na("N03", "Model formulas denote the documented model",
   "Random-effects, structural-equation and fixed-effects formulas are parsed into exactly the terms, parameters and constraints their grammar denotes, whatever the spacing and term order.",
   "every formula of the grammar", ["pystatsm/pysem2/formula.py", "pystatsm/pysem/formula.py", "pystatsm/utilities/formula.py"], [("parser", "formula modules")], PURE)
na("N04", "Special matrices satisfy their defining identities",
   "Duplication, elimination, commutation and related matrices and vech/vec maps satisfy their defining identities for every size.",
   "every dimension", ["pystatsm/utilities/special_mats.py", "pystatsm/utilities/indexing_utils.py"], [("index construction", "special_mats")], PURE)
na("N05", "Custom distributions are coherent",
   "For the sinh-arcsinh, skew-normal and related distributions, density, distribution function, quantile and moments agree with one another for all parameters.",
   "every parameter value", ["pystatsm/misc/sinharcsinh_dist.py", "pystatsm/misc/skewnorm_dist.py"], [("closed forms", "misc")], PURE)
na("N06", "Polychoric and polyserial likelihoods integrate the bivariate normal",
   "Category probabilities of the polychoric and polyserial likelihoods are the bivariate normal probabilities of their rectangles and sum to one, and estimates maximise them.",
   "every table and correlation", ["pystatsm/pylvcorr/polychoric2.py", "pystatsm/pylvcorr/statfuncs.py"], [("bivariate normal cdf", "pylvcorr")], PURE)
na("N07", "Numerical results do not depend on threaded BLAS",
   "Results do not depend, beyond rounding, on the number of threads the BLAS and CHOLMOD libraries use internally.",
   "every BLAS thread schedule", ["pystatsm"], [("delegated to BLAS/CHOLMOD", "numpy, scipy, sksparse")],
   "threads inside prebuilt OpenBLAS/CHOLMOD binaries cannot be put under a simulator's control here (no source, no seam); the simulator pins them to one thread.")
