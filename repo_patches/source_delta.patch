From 531698c49ac8830a96e9919c7afd8a9912f12c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 01/90] fix: sort sparse indices before the merge-based
 kernels, which assume them sorted

---
 pystatsm/utilities/python_wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 1a29696..d5fe43f 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -302,6 +302,9 @@ def sparse_dot(a, b, c=0.0):
     return c
 
 def sparse_pattern_trace(B, C, out=0.0):
+    # the kernel merges columns of B by row index, so these have to be sorted
+    if not B.has_sorted_indices:
+        B = B.sorted_indices()
     out = cs_pattern_trace_wrapper(B.indptr, B.indices, B.data, B.shape[0], B.shape[1], B.nnz,
                                    C.indptr, C.indices, C.data, C.shape[0], C.shape[1], C.nnz,
                                    out)
@@ -314,6 +317,9 @@ def block_diag_self_dot(L_csr, ng, nv, out=None):
     out[a, b] = sum_j sum_p L[j*nv+a, p] * L[j*nv+b, p]."""
     if out is None:
         out = np.zeros((nv, nv), dtype=np.double)
+    # the kernel merges rows by column index, so these have to be sorted
+    if not L_csr.has_sorted_indices:
+        L_csr = L_csr.sorted_indices()
     cs_block_diag_self_dot_wrapper(L_csr.indptr.astype(np.int32, copy=False),
                                    L_csr.indices.astype(np.int32, copy=False),
                                    L_csr.data.astype(np.double, copy=False),
-- 
2.43.0


From 6cfe50ffe9826b483a5036e3349747e973005226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 02/90] fix: LMM2 keeps the full block pattern when cross
 products contain exact zeros

---
 pystatsm/pylmm/re_mod.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f32be69..9c195c3 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -77,6 +77,24 @@ def sparsity(a):
     return a.nnz / np.prod(a.shape)
 
 
+def _union_pattern(*mats):
+    """Copies of the given matrices in csc format that all store the union of
+    their sparsity patterns, so that their data arrays are aligned."""
+    coos = [sp.sparse.coo_array(m) for m in mats]
+    rows = np.concatenate([m.row for m in coos])
+    cols = np.concatenate([m.col for m in coos])
+    out = []
+    for k in range(len(coos)):
+        data = np.concatenate([m.data if j == k else np.zeros(m.nnz)
+                               for j, m in enumerate(coos)])
+        res = sp.sparse.coo_array((data, (rows, cols)), shape=coos[k].shape).tocsc()
+        res.sort_indices()
+        res.indptr = res.indptr.astype(np.int32, copy=False)
+        res.indices = res.indices.astype(np.int32, copy=False)
+        out.append(res)
+    return out
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
@@ -655,7 +673,7 @@ class MMEBlocked(BaseMME):
             self._initialize_unweighted()
         else:
             self._initialize_weighted()
-        self.C = self.ZtRZ + self.G
+        self.C = _union_pattern(self.ZtRZ, self.G)[0]
 
     def _initialize_unweighted(self):
         ZtR = self.Zt.dot(self.R).tocsc()
@@ -663,7 +681,7 @@ class MMEBlocked(BaseMME):
         ZtR_dR_RZ = sp.sparse.csc_array.dot(ZtRdR, ZtR.T).tocsc()
 
         ZtZ = sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc()
-        ZtZ.sort_indices()
+        ZtZ, _ = _union_pattern(ZtZ, self.G)    # zeros of ZtZ inside G's blocks are stored
         ZtRZ = ZtZ.copy()                       # persistent buffer
         ZtRZ.sort_indices()
 
-- 
2.43.0


From 3b223669be6cf94212c147f98622f7833a9bc96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 03/90] fix: relationship matrices work with random slopes,
 sparse inverses and gradient_v2

---
 pystatsm/pylmm/re_mod.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 9c195c3..8bc71a2 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -101,11 +101,11 @@ def _resolve_a(a_cov):
         a_csc = a_cov.tocsc()
         fac = cholesky(sp.sparse.csc_matrix(a_csc))
         a_inv = sp.sparse.csc_matrix(fac.solve_A(sp.sparse.eye(n, format='csc')))
-        return a_csc, a_inv
+        return _union_pattern(a_csc, a_inv)
     A = np.asarray(a_cov)
     L = np.linalg.cholesky(A)
     A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
-    return sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    return _union_pattern(sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv))
 
 
 class BaseCovarianceStructure(metaclass=ABCMeta):
@@ -218,8 +218,9 @@ class BaseProductCovariance(metaclass=ABCMeta):
         pass
 
     def accumulate_gradient(self, par_offset, sl, ZtRZ, L_zz, T_zx, v_y,
-                            T_xx_inv, reml, grad):
-        L_zz_blk_t = L_zz[sl].T.tocsc()
+                            T_xx_inv, reml, grad, L_zz_sl=None):
+        L_zz_blk = L_zz_sl if L_zz_sl is not None else L_zz[sl]
+        L_zz_blk_t = L_zz_blk.T.tocsc()
         ZtRZ_blk = ZtRZ[sl, sl]
         T_zx_blk = T_zx[sl]
         v_y_blk = v_y[sl]
@@ -332,7 +333,7 @@ class KronAG(BaseProductCovariance):
 
     def _update_gdata(self, G0, inv, out):
         A = self.a_inv if inv else self.a_cov
-        sparse_dense_kron_inplace(A, G0, out)
+        sparse_dense_kron_inplace(A, np.asfortranarray(G0), out)
 
     def get_logdet(self, params, out=0.0):
         G0 = invech(params)
@@ -340,7 +341,7 @@ class KronAG(BaseProductCovariance):
         return out
 
     def dcov_dparams(self, params, i):
-        dG0_i = self.unstructured_cov.dcov_dparams(params, i).copy()
+        dG0_i = self.unstructured_cov.dcov_dparams(params, i).copy(order='F')
         dGi = sparse_dense_kron(self.a_cov, dG0_i)
         dGi.eliminate_zeros()
         return dGi
-- 
2.43.0


From 42f6f2e4747efd5768beefd19360f9ce7b706060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 04/90] fix: LMM.loglike takes y'Py and log|C| independently of
 CHOLMOD's permutation

---
 pystatsm/pylmm/lmm.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 80eb4c1..4a73b4b 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -158,14 +158,20 @@ class LMM(object):
         Ginv = self.update_gmat(theta, inverse=True)
         M = self.update_mme(Ginv, theta)
         if (M.nnz / np.prod(M.shape) < sparsity_threshold) and use_sparse:
-            L = cholesky(M.tocsc()).L().toarray()
+            # CHOLMOD factorises under a fill-reducing permutation, so y is not
+            # the last pivot of its factor; eliminate it explicitly
+            M = M.tocsc()
+            chol_fac = cholesky(M[:-1, :-1])
+            XZty = M[:-1, -1].toarray()[:, 0]
+            ytPy = M[-1, -1] - XZty.dot(chol_fac.solve_A(XZty))
+            logdetC = chol_fac.slogdet()[1]
         else:
             L = np.linalg.cholesky(M.toarray())
-        ytPy = np.diag(L)[-1]**2
+            ytPy = np.diag(L)[-1]**2
+            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
         logdetG = self.lndet_gmat(theta)
         logdetR = np.log(theta[-1]) * self.Z.shape[0]
         if reml:
-            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
             Q = Ginv + self.ZtZ / theta[-1]
-- 
2.43.0


From ef8d902c3323a89aaad5c0327fa6f6bc4c471f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 05/90] fix: LMM Hessian and standard errors honour reml=False

---
 pystatsm/pylmm/lmm.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 4a73b4b..c4c6a57 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -465,6 +465,12 @@ class LMM(object):
         U = np.linalg.solve(XtWX, WX.T)
         ZtP = WZ.T - ZtWX.dot(np.linalg.solve(XtWX, WX.T))
         ZtPZ = Z.T.dot(ZtP.T)
+        # the trace terms are those of P for REML but of V^-1 for ML
+        if reml:
+            ZtT, ZtTZ = ZtP, ZtPZ
+        else:
+            ZtT = WZ.T.toarray() if sps.issparse(WZ) else np.asarray(WZ).T
+            ZtTZ = Z.T.dot(ZtT.T)
         Py = W.dot(y) - WX.dot(U.dot(y))
         ZtPy = Z.T.dot(Py)
         PPy = W.dot(Py) - WX.dot(U.dot(Py))
@@ -474,13 +480,12 @@ class LMM(object):
         ix = []
         for i in range(self.levels):
             ind = self.jac_inds[i]
-            ZtPZi = ZtPZ[ind]
             ZtPyi = ZtPy[ind]
-            ZtPi = ZtP[ind]
+            ZtTi = ZtT[ind]
             for dGdi in self.random_effects.terms[i].G_deriv:
-                PJ.append(dGdi.dot(ZtPZi))
+                PJ.append(dGdi.dot(ZtTZ[ind]))
                 yPZJ.append(dGdi.dot(ZtPyi))
-                ZPJ.append((dGdi.dot(ZtPi)).T)
+                ZPJ.append((dGdi.dot(ZtTi)).T)
                 ix.append(ind)
 
         t_indices = list(zip(*np.triu_indices(len(self.theta)-1)))
@@ -492,14 +497,14 @@ class LMM(object):
                     + (2 * (yPZJi.T.dot(ZtPZij)).dot(JjZPy))[0]
             H[i, j] = H[j, i] = Hij
         dR = self.dR
-        dRZtP = (dR.dot(ZtP.T))
+        dRZtP = (dR.dot(ZtT.T))
         for i in range(len(self.theta)-1):
             yPZJi = yPZJ[i]
             ZPJi = ZPJ[i]
             ZtPPyi = ZtPPy[ix[i]]
             H[i, -1] = H[-1, i] = 2*yPZJi.T.dot(ZtPPyi) - np.einsum('ij,ji->', ZPJi.T, dRZtP[:, ix[i]])
-        P = W - WX.dot(U)
-        H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", P, P)
+        T = np.asarray(W - WX.dot(U)) if reml else W.toarray()
+        H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", T, T)
         return H
 
 
@@ -586,11 +591,11 @@ class LMM(object):
             re_corrs[i] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(self.loglike, theta, args=(reml,))
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-- 
2.43.0


From ae72fe92226c78ddf832c09824253ef62b33121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 06/90] fix: LMM.pls applies the factor's permutation around
 its triangular solves

---
 pystatsm/pylmm/lmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index c4c6a57..f5b2306 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -190,11 +190,11 @@ class LMM(object):
         ZtWy = ZtW.dot(Wy)
         LtZtW = (L.T.dot(ZtW)).tocsc()
         Lfactor = cholesky_AAt(LtZtW, beta=1)
-        cu    = Lfactor.solve_L(L.T.dot(ZtWy), use_LDLt_decomposition=False)
-        RZX   = Lfactor.solve_L(L.T.dot(ZtWX), use_LDLt_decomposition=False)
+        cu    = Lfactor.solve_L(Lfactor.apply_P(L.T.dot(ZtWy)), use_LDLt_decomposition=False)
+        RZX   = Lfactor.solve_L(Lfactor.apply_P(L.T.dot(ZtWX)), use_LDLt_decomposition=False)
         RXtRX = XtWX - RZX.T.dot(RZX)
         b = np.linalg.solve(RXtRX, XtWy - RZX.T.dot(cu))
-        v = Lfactor.solve_Lt(cu - RZX.dot(b), use_LDLt_decomposition=False)
+        v = Lfactor.apply_Pt(Lfactor.solve_Lt(cu - RZX.dot(b), use_LDLt_decomposition=False))
         u = L.dot(v)
         mu = X.dot(b) + Z.dot(u)
         wtres = W.dot(y - mu)
-- 
2.43.0


From 01967ed42251353b368846568b4b701163f42d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 07/90] fix: LMM.fit does not write into the options dictionary
 it is given

---
 pystatsm/pylmm/lmm.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index f5b2306..31449bd 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -551,10 +551,7 @@ class LMM(object):
     def _optimize(self, reml=True, use_grad=True, use_hess=False, approx_hess=False,
                   opt_kws={}, optimize_kws={}):
 
-        default_opt_kws = dict(verbose=0, gtol=1e-6, xtol=1e-6)
-        for key, value in default_opt_kws.items():
-                if key not in opt_kws.keys():
-                    opt_kws[key] = value
+        opt_kws = {**dict(verbose=0, gtol=1e-6, xtol=1e-6), **opt_kws}
         if use_grad:
 
             if use_hess:
-- 
2.43.0


From c5edacb8b77e1693b43337bc912fba673bd7a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 08/90] fix: memoised objectives do not remember a point whose
 evaluation failed

---
 pystatsm/utilities/optimizer_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/optimizer_utils.py b/pystatsm/utilities/optimizer_utils.py
index dcc745e..cf21f01 100644
--- a/pystatsm/utilities/optimizer_utils.py
+++ b/pystatsm/utilities/optimizer_utils.py
@@ -46,10 +46,11 @@ class MemoizeJac:
 
     def _compute_if_needed(self, x, *args):
         if not np.all(x == self.x) or self._value is None or self.jac is None:
-            self.x = np.asarray(x).copy()
+            self.x = None  # nothing is cached until fun has returned
             fg = self.fun(x, *args)
             self.jac = fg[1]
             self._value = fg[0]
+            self.x = np.asarray(x).copy()
 
     def __call__(self, x, *args):
         self._compute_if_needed(x, *args)
@@ -72,8 +73,9 @@ class MemoizeGradHess(MemoizeJac):
 
     def _compute_if_needed(self, x, *args):
         if not np.all(x == self.x) or self._value is None or self.jac is None or self.hess is None:
-            self.x = np.asarray(x).copy()
+            self.x = None  # nothing is cached until fun has returned
             self._value, self.jac, self.hess = self.fun(x, *args)
+            self.x = np.asarray(x).copy()
 
     def hessian(self, x, *args):
         self._compute_if_needed(x, *args)
-- 
2.43.0


From 494f10b56f95cbbab8f629305e6a5e40daa01ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 09/90] fix: process_optimizer_kwargs copies option
 dictionaries instead of filling them in

---
 pystatsm/utilities/optimizer_utils.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pystatsm/utilities/optimizer_utils.py b/pystatsm/utilities/optimizer_utils.py
index cf21f01..def6fb0 100644
--- a/pystatsm/utilities/optimizer_utils.py
+++ b/pystatsm/utilities/optimizer_utils.py
@@ -23,18 +23,11 @@ default_opts = {'L-BFGS-B':LBFGSB_options,
                 'trust-ncg':TrustNewton_options}
 
 def process_optimizer_kwargs(optimizer_kwargs, default_method='trust-constr'):
-    keys = optimizer_kwargs.keys()
-
-    if 'method' not in keys:
-        optimizer_kwargs['method'] = default_method
-
-    if 'options' not in keys:
-        optimizer_kwargs['options'] = default_opts[optimizer_kwargs['method']]
-    else:
-        options_keys = optimizer_kwargs['options'].keys()
-        for dfkey, dfval in default_opts[optimizer_kwargs['method']].items():
-            if dfkey not in options_keys:
-                optimizer_kwargs['options'][dfkey] = dfval
+    # the caller's dictionaries and the shared defaults are copied, not filled in
+    optimizer_kwargs = dict(optimizer_kwargs)
+    optimizer_kwargs.setdefault('method', default_method)
+    optimizer_kwargs['options'] = {**default_opts[optimizer_kwargs['method']],
+                                   **optimizer_kwargs.get('options', {})}
     return optimizer_kwargs
 
 class MemoizeJac:
-- 
2.43.0


From 08cd5a274dcb1d911926cd60336ffa3b49da129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 10/90] fix: a Cholesky factor refuses to answer from a
 factorisation that failed

---
 pystatsm/utilities/linalg_operations.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/linalg_operations.py b/pystatsm/utilities/linalg_operations.py
index 9cdd1b5..820a61b 100644
--- a/pystatsm/utilities/linalg_operations.py
+++ b/pystatsm/utilities/linalg_operations.py
@@ -46,20 +46,29 @@ class _FactorProxy:
     so we cache `perm` and its inverse to avoid `np.argsort(perm)` on every
     apply_Pt call (a real cost when apply_Pt is in the gradient hot path)."""
 
-    __slots__ = ("_f", "_perm", "_inv_perm")
+    __slots__ = ("_f", "_perm", "_inv_perm", "_failed")
 
     def __init__(self, factor):
         self._f = factor
+        self._failed = False
         # Cache permutation arrays once — they're a function of the symbolic
         # factor only and don't change with subsequent numeric refactorizations.
         self._perm = factor.perm
         self._inv_perm = np.argsort(self._perm)
 
+    def _check(self):
+        # CHOLMOD keeps a partial factor after a failed factorisation and
+        # would go on answering from it
+        if self._failed:
+            raise np.linalg.LinAlgError("the last factorisation did not succeed")
+
     def _ensure_ll(self):
+        self._check()
         if not self._f.is_ll:
             self._f.change_factor(kind="LL")
 
     def _ensure_ldl(self):
+        self._check()
         if self._f.is_ll:
             self._f.change_factor(kind="LDL")
 
@@ -87,6 +96,7 @@ class _FactorProxy:
         return b[self._inv_perm]
 
     def solve_A(self, b):
+        self._check()
         return self._f.solve(b)
 
     def solve_L(self, b, use_LDLt_decomposition=True):
@@ -104,7 +114,9 @@ class _FactorProxy:
         return self._f.solve(b, system="Lt")
 
     def cholesky_inplace(self, A):
+        self._failed = True
         self._f.factorize(_to_csc(A))
+        self._failed = False
         # Tried pinning kind to LDL here to make D() free downstream — but
         # solve_L (called next with `use_LDLt_decomposition=False`) flips it
         # back to LL via _ensure_ll, so we were paying a conversion both ways
@@ -113,9 +125,11 @@ class _FactorProxy:
         return self
 
     def slogdet(self):
+        self._check()
         return self._f.slogdet()
 
     def inv(self):
+        self._check()
         return self._f.inv()
 
 
-- 
2.43.0


From 3b5b8a8226a4e461d5d5169aa755d335d0ac2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 11/90] fix: the dense Cholesky fallback solves with the LDL'
 factor when asked to

---
 pystatsm/utilities/linalg_operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/linalg_operations.py b/pystatsm/utilities/linalg_operations.py
index 820a61b..a0b8ed3 100644
--- a/pystatsm/utilities/linalg_operations.py
+++ b/pystatsm/utilities/linalg_operations.py
@@ -188,11 +188,15 @@ class _DenseCholFactor:
         x = sp.linalg.solve_triangular(lhs, rhs, lower=lower, check_finite=False)
         return sp.sparse.csc_matrix(x) if is_sparse else x
 
+    def _tri(self, use_LDLt_decomposition):
+        # L of LL', or the unit lower triangular L of LDL'
+        return self._L / np.diag(self._L) if use_LDLt_decomposition else self._L
+
     def solve_L(self, b, use_LDLt_decomposition=True):
-        return self._solve_tri(self._L, b, lower=True)
+        return self._solve_tri(self._tri(use_LDLt_decomposition), b, lower=True)
 
     def solve_Lt(self, b, use_LDLt_decomposition=True):
-        return self._solve_tri(self._L.T, b, lower=False)
+        return self._solve_tri(self._tri(use_LDLt_decomposition).T, b, lower=False)
 
     def solve_A(self, b):
         is_sparse = sp.sparse.issparse(b)
-- 
2.43.0


From b0aec3a960b423d5c3e428ff6f46230bc4119d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 12/90] fix: refactorising a Cholesky factor rejects indefinite
 matrices whatever was queried before

---
 pystatsm/utilities/linalg_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/linalg_operations.py b/pystatsm/utilities/linalg_operations.py
index a0b8ed3..1f8ff11 100644
--- a/pystatsm/utilities/linalg_operations.py
+++ b/pystatsm/utilities/linalg_operations.py
@@ -115,7 +115,8 @@ class _FactorProxy:
 
     def cholesky_inplace(self, A):
         self._failed = True
-        self._f.factorize(_to_csc(A))
+        # always LL': an LDL' factorisation would accept an indefinite A
+        self._f.factorize(_to_csc(A), ldl=False)
         self._failed = False
         # Tried pinning kind to LDL here to make D() free downstream — but
         # solve_L (called next with `use_LDLt_decomposition=False`) flips it
-- 
2.43.0


From 93ccaf0f1a21f7352117ba93416caa828f2e2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 13/90] fix: the dense Cholesky fallback cannot hold a
 determinant of another factorisation

---
 pystatsm/utilities/linalg_operations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/linalg_operations.py b/pystatsm/utilities/linalg_operations.py
index 1f8ff11..d34cc25 100644
--- a/pystatsm/utilities/linalg_operations.py
+++ b/pystatsm/utilities/linalg_operations.py
@@ -141,14 +141,13 @@ class _DenseCholFactor:
     of dense numpy.linalg.cholesky. Permutation is identity, so apply_P/Pt
     are no-ops. Only viable for problems small enough to fit dense."""
 
-    __slots__ = ("_n", "_L", "_beta", "_AAt", "_logdet")
+    __slots__ = ("_n", "_L", "_beta", "_AAt")
 
     def __init__(self, A=None, beta=0.0, AAt=False):
         self._beta = float(beta)
         self._AAt = bool(AAt)
         self._n = None if A is None else A.shape[0]
         self._L = None
-        self._logdet = None
         if A is not None:
             self.cholesky_inplace(A)
 
@@ -162,7 +161,6 @@ class _DenseCholFactor:
             M[ii, ii] = M[ii, ii] + self._beta
         self._n = M.shape[0]
         self._L = np.linalg.cholesky(M)
-        self._logdet = 2.0 * float(np.sum(np.log(np.diag(self._L))))
         return self
 
     def L(self):
@@ -206,7 +204,7 @@ class _DenseCholFactor:
         return sp.sparse.csc_matrix(x) if is_sparse else x
 
     def slogdet(self):
-        return 1.0, self._logdet
+        return 1.0, 2.0 * float(np.sum(np.log(np.diag(self._L))))
 
     def inv(self):
         rhs = np.eye(self._n)
-- 
2.43.0


From 56d3fa9dcaac679669252007e76cab61c49f8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 14/90] fix: in-place sparse products are really sorted again
 after every reuse of the buffer

---
 pystatsm/utilities/python_wrappers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index d5fe43f..2225b1f 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -49,6 +49,13 @@ def symbolic_csc_like(arr, zero=True):
         res.data = res.data * 0.0
     return res
 
+def _forget_index_order(C):
+    """Drops what scipy remembers of the order of C's indices, which a kernel has just rewritten."""
+    for name in ("_has_sorted_indices", "_has_canonical_format"):
+        if hasattr(C, name):
+            delattr(C, name)
+
+
 def cs_add_inplace(A, B, C, alpha=1.0, beta=1.0):
     Ap, Ai, Ax = A.indptr, A.indices, A.data
     Bp, Bi, Bx = B.indptr, B.indices, B.data
@@ -101,6 +108,7 @@ def cs_matmul_inplace(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    _forget_index_order(C)
     C.sort_indices()
     return C
 
@@ -114,6 +122,7 @@ def cs_matmul_inplace_complex(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_complex_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    _forget_index_order(C)
     C.sort_indices()
     return C
 
-- 
2.43.0


From 295fb600ac802319c2b17d7249016ab71340375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 15/90] fix: cs_add_inplace_complex does not shrink the pattern
 of the buffer it fills

---
 pystatsm/utilities/python_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 2225b1f..263f567 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -76,7 +76,7 @@ def cs_add_inplace_complex(A, B, C, alpha=1.0+0j, beta=1.0+0j):
     Cnr, Cnc = C.shape
     
     cs_add_inplace_complex_wrapper(Ap, Ai, Ax, Bp, Bi, Bx, alpha, beta, Cp, Ci, Cx, Cnr, Cnc)
-    C.eliminate_zeros()
+    # C keeps its whole pattern, explicit zeros included, so that it can be reused
     return C
 
 def tile_1d(arr, reps, out=None):
-- 
2.43.0


From deb15112f60dfa9162a126dabd96cd7a07825ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 16/90] fix: id_sp_kron places the blocks of a rectangular
 matrix in the right rows

---
 pystatsm/utilities/python_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 263f567..38862c1 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -262,7 +262,7 @@ def id_sp_kron(m, B):
     Ci = np.zeros(m * nnz, dtype=np.int32)
     Cx = np.zeros(m * nnz, dtype=np.float64)
     
-    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return sp.sparse.csc_matrix((Cx, Ci, Cp), shape=(m * Bnr, m * Bnc))
 
@@ -272,7 +272,7 @@ def id_sp_kron_inplace(m, B, C):
     Bp, Bi, Bx = B.indptr, B.indices, B.data
     Cp, Ci, Cx = C.indptr, C.indices, C.data
    
-    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return C
 
-- 
2.43.0


From 57fe6ff38a242b0319748c7a949f63c43dc14706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 17/90] fix: Kronecker kernels write the first column pointer
 of a reused buffer

---
 pystatsm/utilities/src/cs_kron_ds.c | 1 +
 pystatsm/utilities/src/cs_kron_sd.c | 1 +
 pystatsm/utilities/src/cs_kron_ss.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/pystatsm/utilities/src/cs_kron_ds.c b/pystatsm/utilities/src/cs_kron_ds.c
index e3f8728..39cc651 100644
--- a/pystatsm/utilities/src/cs_kron_ds.c
+++ b/pystatsm/utilities/src/cs_kron_ds.c
@@ -6,6 +6,7 @@ void cs_kron_ds(const double *A, int Anr, int Anc,
     int a_row, a_col, b_col, b_i;
     int cnt = 0;
     
+    Cp[0] = 0;
     for (a_col = 0; a_col < Anc; a_col++) {
         for (b_col = 0; b_col < Bnc; b_col++) {
             for (a_row = 0; a_row < Anr; a_row++) {
diff --git a/pystatsm/utilities/src/cs_kron_sd.c b/pystatsm/utilities/src/cs_kron_sd.c
index 2d268de..ed92913 100644
--- a/pystatsm/utilities/src/cs_kron_sd.c
+++ b/pystatsm/utilities/src/cs_kron_sd.c
@@ -5,6 +5,7 @@ void cs_kron_sd(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc
                 int *Cp, int *Ci, double *Cx) {
     int a_col, b_col, a_i, b_row, cnt = 0;
     
+    Cp[0] = 0;
     for (a_col = 0; a_col < Anc; a_col++) {
         for (b_col = 0; b_col < Bnc; b_col++) {
             for (a_i = Ap[a_col]; a_i < Ap[a_col + 1]; a_i++) {
diff --git a/pystatsm/utilities/src/cs_kron_ss.c b/pystatsm/utilities/src/cs_kron_ss.c
index 2381808..9d48197 100644
--- a/pystatsm/utilities/src/cs_kron_ss.c
+++ b/pystatsm/utilities/src/cs_kron_ss.c
@@ -5,6 +5,7 @@ void cs_kron_ss(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc
                 int *Cp, int *Ci, double *Cx) {
     int a_col, b_col, a_i, b_i, rout, cnt = 0;
     
+    Cp[0] = 0;
     for (a_col = 0; a_col < Anc; a_col++) {
         for (b_col = 0; b_col < Bnc; b_col++) {
             for (a_i = Ap[a_col]; a_i < Ap[a_col + 1]; a_i++) {
-- 
2.43.0


From 3d78622a7ce8caa4b54fa0816ffdca9faaa25bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 18/90] fix: sparse_dot sorts the indices its kernel merges

---
 pystatsm/utilities/python_wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 38862c1..398c04b 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -307,6 +307,8 @@ def sparse_dense_kron(A, B, out=None):
         return Cx, Ci, Cp
     
 def sparse_dot(a, b, c=0.0):
+    # the kernel merges the two vectors by index, so these have to be sorted
+    a, b = [v if v.has_sorted_indices else v.sorted_indices() for v in (a, b)]
     c = cs_dot_wrapper(a.data, a.indices, a.nnz, b.data, b.indices, b.nnz, c)
     return c
 
-- 
2.43.0


From be2b6bdb941246a104fa169c8c5cbf608e888a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 19/90] fix: block_diag_self_dot fills outputs that are not C
 contiguous

---
 pystatsm/utilities/python_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 398c04b..d410315 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -331,11 +331,14 @@ def block_diag_self_dot(L_csr, ng, nv, out=None):
     # the kernel merges rows by column index, so these have to be sorted
     if not L_csr.has_sorted_indices:
         L_csr = L_csr.sorted_indices()
+    res = np.ascontiguousarray(out)
     cs_block_diag_self_dot_wrapper(L_csr.indptr.astype(np.int32, copy=False),
                                    L_csr.indices.astype(np.int32, copy=False),
                                    L_csr.data.astype(np.double, copy=False),
                                    L_csr.shape[0], L_csr.shape[1], ng, nv,
-                                   out.reshape(-1))
+                                   res.reshape(-1))
+    if res is not out:
+        out[...] = res
     return out
 
 def sparse_dense_kron_inplace(A, B, C):
-- 
2.43.0


From 8e2b6746c86b8bb1575b525caf0807aeac3cccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 20/90] fix: Kronecker products into a sparse buffer forget the
 order of its old indices

---
 pystatsm/utilities/python_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index d410315..060e5b0 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -165,6 +165,7 @@ def dense_sparse_kron(A, B, out=None):
     if out is None:
         return sp.sparse.csc_array((Cx, Ci, Cp), shape=(Cnr, Cnc))
     elif sp.sparse.issparse(out):
+        _forget_index_order(out)
         return out
     else:
         return Cx, Ci, Cp
@@ -196,6 +197,7 @@ def sparse_kron(A, B, out=None):
     if out is None:
         return sp.sparse.csc_array((Cx, Ci, Cp), shape=(Cnr, Cnc))
     elif sp.sparse.issparse(out):
+        _forget_index_order(out)
         return out
     else:
         return Cx, Ci, Cp
@@ -229,6 +231,7 @@ def ds_kron(A, B, out=None):
     if out is None:
         return sp.sparse.csc_array((Cx, Ci, Cp), shape=(Anr * Bnr, Anc * Bnc))
     elif sp.sparse.issparse(out):
+        _forget_index_order(out)
         return out
     else:
         return Cx, Ci, Cp
@@ -302,6 +305,7 @@ def sparse_dense_kron(A, B, out=None):
     if out is None:
         return sp.sparse.csc_array((Cx, Ci, Cp), shape=(Cnr, Cnc))
     elif sp.sparse.issparse(out):
+        _forget_index_order(out)
         return out
     else:
         return Cx, Ci, Cp
-- 
2.43.0


From 06c5379acdec7ea5abea2c45c9e9e53b55fc390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:37 +0000
Subject: [PATCH 21/90] fix: sparse kernels raise MemoryError when their
 workspace cannot be allocated

---
 pystatsm/utilities/cython_wrappers.pyx        | 28 +++++++++++--------
 pystatsm/utilities/src/cs_add_inplace.c       |  4 ++-
 pystatsm/utilities/src/cs_add_inplace.h       |  2 +-
 .../utilities/src/cs_add_inplace_complex.c    |  4 ++-
 .../utilities/src/cs_add_inplace_complex.h    |  2 +-
 pystatsm/utilities/src/cs_matmul_inplace.c    |  8 +++++-
 pystatsm/utilities/src/cs_matmul_inplace.h    |  2 +-
 .../utilities/src/cs_matmul_inplace_complex.c |  8 +++++-
 .../utilities/src/cs_matmul_inplace_complex.h |  2 +-
 9 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/pystatsm/utilities/cython_wrappers.pyx b/pystatsm/utilities/cython_wrappers.pyx
index e2d6d6c..786b669 100644
--- a/pystatsm/utilities/cython_wrappers.pyx
+++ b/pystatsm/utilities/cython_wrappers.pyx
@@ -15,7 +15,7 @@ def coo_to_csc_wrapper(int Anr, int Anc, int Anz,
     coo_to_csc(Anr, Anc, Anz, &Ai[0], &Aj[0], &Ax[0], &Bp[0], &Bi[0], &Bx[0])
 
 cdef extern from "cs_add_inplace.h":
-    void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
+    int cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
                 const int *Bp, const int *Bi, const double *Bx,
                 double alpha, double beta,
                 int *Cp, int *Ci, double *Cx, int Cnr, int Cnc)
@@ -31,10 +31,11 @@ def cs_add_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                    np.ndarray[int, ndim=1, mode="c"] Ci not None,
                    np.ndarray[double, ndim=1, mode="c"] Cx not None,
                    int Cnr, int Cnc):
-    cs_add_inplace(&Ap[0], &Ai[0], &Ax[0],
+    if cs_add_inplace(&Ap[0], &Ai[0], &Ax[0],
                    &Bp[0], &Bi[0], &Bx[0],
                    alpha, beta,
-                   &Cp[0], &Ci[0], &Cx[0], Cnr, Cnc)
+                   &Cp[0], &Ci[0], &Cx[0], Cnr, Cnc) != 0:
+        raise MemoryError()
 
 
 cdef extern from "cs_kron_ss.h":
@@ -105,7 +106,7 @@ def cs_kron_ds_inplace_wrapper(np.ndarray[double, ndim=2, mode="fortran"] A not
                        &Cx[0])
 
 cdef extern from "cs_matmul_inplace.h":
-    void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
+    int cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
                            const int *Bp, const int *Bi, const double *Bx, int Bnr, int Bnc,
                            int *Cp, int *Ci, double *Cx)
 
@@ -120,9 +121,10 @@ def cs_matmul_inplace_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None,
                               np.ndarray[int, ndim=1, mode="c"] Cp not None,
                               np.ndarray[int, ndim=1, mode="c"] Ci not None,
                               np.ndarray[double, ndim=1, mode="c"] Cx not None):
-    cs_matmul_inplace(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
+    if cs_matmul_inplace(&Ap[0], &Ai[0], &Ax[0], Anr, Anc,
                       &Bp[0], &Bi[0], &Bx[0], Bnr, Bnc,
-                      &Cp[0], &Ci[0], &Cx[0])
+                      &Cp[0], &Ci[0], &Cx[0]) != 0:
+        raise MemoryError()
     
 
 cdef extern from "cs_kron_sd.h":
@@ -282,7 +284,7 @@ def naive_matmul_inplace2_wrapper(np.ndarray[double, ndim=2, mode="c"] A not Non
 
 
 cdef extern from "cs_matmul_inplace_complex.h":
-    void cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax, int Anr, int Anc,
+    int cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax, int Anr, int Anc,
                                    const int *Bp, const int *Bi, const double complex *Bx, int Bnr, int Bnc,
                                    int *Cp, int *Ci, double complex *Cx)
     
@@ -297,13 +299,14 @@ def cs_matmul_inplace_complex_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not N
                                       np.ndarray[int, ndim=1, mode="c"] Cp not None,
                                       np.ndarray[int, ndim=1, mode="c"] Ci not None,
                                       np.ndarray[np.complex128_t, ndim=1, mode="c"] Cx not None):
-    cs_matmul_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0], Anr, Anc,
+    if cs_matmul_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0], Anr, Anc,
                               &Bp[0], &Bi[0], <double complex*>&Bx[0], Bnr, Bnc,
-                              &Cp[0], &Ci[0], <double complex*>&Cx[0])
+                              &Cp[0], &Ci[0], <double complex*>&Cx[0]) != 0:
+        raise MemoryError()
     
     
 cdef extern from "cs_add_inplace_complex.h":
-    void cs_add_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax,
+    int cs_add_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax,
                                 const int *Bp, const int *Bi, const double complex *Bx,
                                 double complex alpha, double complex beta,
                                 int *Cp, int *Ci, double complex *Cx, int Cnr, int Cnc)
@@ -320,8 +323,9 @@ def cs_add_inplace_complex_wrapper(np.ndarray[int, ndim=1, mode="c"] Ap not None
                                    np.ndarray[int, ndim=1, mode="c"] Ci not None,
                                    np.ndarray[np.complex128_t, ndim=1, mode="c"] Cx not None,
                                    int Cnr, int Cnc):
-    cs_add_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0],
+    if cs_add_inplace_complex(&Ap[0], &Ai[0], <double complex*>&Ax[0],
                            &Bp[0], &Bi[0], <double complex*>&Bx[0],
                            <double complex>alpha, <double complex>beta,
-                           &Cp[0], &Ci[0], <double complex*>&Cx[0], Cnr, Cnc)
+                           &Cp[0], &Ci[0], <double complex*>&Cx[0], Cnr, Cnc) != 0:
+        raise MemoryError()
     
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_add_inplace.c b/pystatsm/utilities/src/cs_add_inplace.c
index 33ef024..990bf5e 100644
--- a/pystatsm/utilities/src/cs_add_inplace.c
+++ b/pystatsm/utilities/src/cs_add_inplace.c
@@ -1,11 +1,12 @@
 #include "cs_add_inplace.h"
 #include <stdlib.h>
 
-void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
+int cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
             const int *Bp, const int *Bi, const double *Bx,
             double alpha, double beta,
             int *Cp, int *Ci, double *Cx, int Cnr, int Cnc) {
     double *x = (double *)calloc(Cnr, sizeof(double));
+    if (Cnr > 0 && x == NULL) return -1;
     
     for (int j = 0; j < Cnc; j++) {
         for (int p = Ap[j]; p < Ap[j+1]; p++) {
@@ -23,4 +24,5 @@ void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
     }
     
     free(x);
+    return 0;
 }
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_add_inplace.h b/pystatsm/utilities/src/cs_add_inplace.h
index 3f35e51..ff3fb9f 100644
--- a/pystatsm/utilities/src/cs_add_inplace.h
+++ b/pystatsm/utilities/src/cs_add_inplace.h
@@ -1,4 +1,4 @@
-void cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
+int cs_add_inplace(const int *Ap, const int *Ai, const double *Ax,
                     const int *Bp, const int *Bi, const double *Bx,
                     double alpha, double beta,
                     int *Cp, int *Ci, double *Cx, int Cnr, int Cnc);
diff --git a/pystatsm/utilities/src/cs_add_inplace_complex.c b/pystatsm/utilities/src/cs_add_inplace_complex.c
index 2fd3b1b..dbcfee8 100644
--- a/pystatsm/utilities/src/cs_add_inplace_complex.c
+++ b/pystatsm/utilities/src/cs_add_inplace_complex.c
@@ -2,11 +2,12 @@
 #include <stdlib.h>
 #include <complex.h>
 
-void cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax,
+int cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax,
                             const int *Bp, const int *Bi, const double _Complex *Bx,
                             double _Complex alpha, double _Complex beta,
                             int *Cp, int *Ci, double _Complex *Cx, int Cnr, int Cnc) {
     double _Complex *x = (double _Complex *)calloc(Cnr, sizeof(double _Complex));
+    if (Cnr > 0 && x == NULL) return -1;
     
     for (int j = 0; j < Cnc; j++) {
         for (int p = Ap[j]; p < Ap[j+1]; p++) {
@@ -24,4 +25,5 @@ void cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex
     }
     
     free(x);
+    return 0;
 }
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_add_inplace_complex.h b/pystatsm/utilities/src/cs_add_inplace_complex.h
index 6930e1e..c74aaf8 100644
--- a/pystatsm/utilities/src/cs_add_inplace_complex.h
+++ b/pystatsm/utilities/src/cs_add_inplace_complex.h
@@ -1,4 +1,4 @@
-void cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax,
+int cs_add_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax,
                             const int *Bp, const int *Bi, const double _Complex *Bx,
                             double _Complex alpha, double _Complex beta,
                             int *Cp, int *Ci, double _Complex *Cx, int Cnr, int Cnc);
diff --git a/pystatsm/utilities/src/cs_matmul_inplace.c b/pystatsm/utilities/src/cs_matmul_inplace.c
index a200d25..95142a2 100644
--- a/pystatsm/utilities/src/cs_matmul_inplace.c
+++ b/pystatsm/utilities/src/cs_matmul_inplace.c
@@ -1,11 +1,16 @@
 #include "cs_matmul_inplace.h"
 #include <stdlib.h>
 
-void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
+int cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
                        const int *Bp, const int *Bi, const double *Bx, int Bnr, int Bnc,
                        int *Cp, int *Ci, double *Cx) {
     int *w = (int *)malloc(Anr * sizeof(int));
     double *x = (double *)malloc(Anr * sizeof(double));
+    if (Anr > 0 && (w == NULL || x == NULL)) {
+        free(w);
+        free(x);
+        return -1;
+    }
     int nz = 0;
 
     for (int i = 0; i < Anr; i++) {
@@ -38,4 +43,5 @@ void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr,
 
     free(w);
     free(x);
+    return 0;
 }
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_matmul_inplace.h b/pystatsm/utilities/src/cs_matmul_inplace.h
index fb00827..32f6cb6 100644
--- a/pystatsm/utilities/src/cs_matmul_inplace.h
+++ b/pystatsm/utilities/src/cs_matmul_inplace.h
@@ -1,4 +1,4 @@
-void cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
+int cs_matmul_inplace(const int *Ap, const int *Ai, const double *Ax, int Anr, int Anc,
                        const int *Bp, const int *Bi, const double *Bx, int Bnr, int Bnc,
                        int *Cp, int *Ci, double *Cx);
                       
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_matmul_inplace_complex.c b/pystatsm/utilities/src/cs_matmul_inplace_complex.c
index ed06ce8..4e3d340 100644
--- a/pystatsm/utilities/src/cs_matmul_inplace_complex.c
+++ b/pystatsm/utilities/src/cs_matmul_inplace_complex.c
@@ -2,11 +2,16 @@
 #include "cs_matmul_inplace_complex.h"
 #include <stdlib.h>
 
-void cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax, int Anr, int Anc,
+int cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double complex *Ax, int Anr, int Anc,
                                const int *Bp, const int *Bi, const double complex *Bx, int Bnr, int Bnc,
                                int *Cp, int *Ci, double complex *Cx) {
     int *w = (int *)malloc(Anr * sizeof(int));
     double complex *x = (double complex *)malloc(Anr * sizeof(double complex));
+    if (Anr > 0 && (w == NULL || x == NULL)) {
+        free(w);
+        free(x);
+        return -1;
+    }
     int nz = 0;
 
     for (int i = 0; i < Anr; i++) {
@@ -39,4 +44,5 @@ void cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double comple
 
     free(w);
     free(x);
+    return 0;
 }
\ No newline at end of file
diff --git a/pystatsm/utilities/src/cs_matmul_inplace_complex.h b/pystatsm/utilities/src/cs_matmul_inplace_complex.h
index 99b3152..4397c43 100644
--- a/pystatsm/utilities/src/cs_matmul_inplace_complex.h
+++ b/pystatsm/utilities/src/cs_matmul_inplace_complex.h
@@ -1,3 +1,3 @@
-void cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax, int Anr, int Anc,
+int cs_matmul_inplace_complex(const int *Ap, const int *Ai, const double _Complex *Ax, int Anr, int Anc,
                                const int *Bp, const int *Bi, const double _Complex *Bx, int Bnr, int Bnc,
                                int *Cp, int *Ci, double _Complex *Cx);
\ No newline at end of file
-- 
2.43.0


From e92197d790e8367b1d1f7fe04c5933588a8731fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 22/90] fix: GLM resampling and robust errors use the model's
 weights

---
 pystatsm/pyglm/linear_model.py | 10 +++-------
 pystatsm/pyglm2/glm.py         | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 065acb8..e38cc0a 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1800,7 +1800,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.weights), 
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
@@ -1851,10 +1851,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = np.ones(self.n_obs) * np.asarray(self.weights)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -1884,8 +1881,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = np.ones(n) * np.asarray(self.weights)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot) if verbose else None
         boot_samples = np.zeros((n_boot, q))
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 4834eb5..d3eb65e 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -418,7 +418,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.weights), 
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
@@ -469,10 +469,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = np.ones(self.n_obs) * np.asarray(self.weights)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -502,8 +499,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, return_info=False, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = np.ones(n) * np.asarray(self.weights)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot, smoothing=1e-6) if verbose else None
         boot_samples = np.zeros((n_boot, q))
-- 
2.43.0


From 68034407544061d61c8044f7fb3e8cede0284176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 23/90] fix: CLM jacknife refits the ordinal model it belongs
 to

---
 pystatsm/pyglm2/clm.py | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 4bb7ea9..8263cc4 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -450,32 +450,22 @@ class CLM(RegressionMixin, LikelihoodModel):
         cumulative_prob = dict(mean=cprob, lower=cprob_lower, uppwer=cprob_upper)
         return linpred, prob, cumulative_prob
         
-    def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
-        if method == "optimize":
-            jacknife_samples = np.zeros((self.n_obs, self.n_params))
-            ii = np.ones(self.n_obs, dtype=bool)
-            pbar = tqdm.tqdm(total=self.n_obs) if verbose else None
-            for i in range(self.n_obs):
-                ii[i] = False
-                opt = self._optimize(data=(self.X[ii], self.y[ii], weights[ii]), f=self.f)
-                jacknife_samples[i] = opt.x
-                ii[i] = True
-                if verbose:
-                    pbar.update(1)
+    def _jacknife(self, verbose=True):
+        B1, B2, o1, o2, o1ix, w = self.model_data
+        params = OrderedTransform._fwd(self.params.copy(), self.q)
+        jacknife_samples = np.zeros((self.n_obs, self.n_params))
+        ii = np.ones(self.n_obs, dtype=bool)
+        pbar = tqdm.tqdm(total=self.n_obs) if verbose else None
+        for i in range(self.n_obs):
+            ii[i] = False
+            params_i, opt = self._fit(params=params.copy(), data=(B1[ii], B2[ii], o1[ii],
+                                                                  o2[ii], o1ix[ii], w[ii]))
+            jacknife_samples[i] = params_i
+            ii[i] = True
             if verbose:
-                pbar.close()
-        elif method == "one-step":    
-            w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
-                               dispersion=self.dispersion,
-                               weights=weights).reshape(-1, 1)
-            WX = self.X * w
-            h = self._compute_leverage_qr(WX)
-            one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
-            jacknife_samples = self.params.reshape(1, -1) - one_step
+                pbar.update(1)
+        if verbose:
+            pbar.close()
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
                                         columns=self.param_labels)
         return jacknife_samples
-- 
2.43.0


From 9ea9c5d44e2b913b3f29bca722ae040242289faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 24/90] fix: CLM.fit passes its optimizer options to the
 optimizer

---
 pystatsm/pyglm2/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 8263cc4..a51b649 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -333,7 +333,7 @@ class CLM(RegressionMixin, LikelihoodModel):
         return params, opt
     
     def fit(self, method=None, opt_kws=None):
-        self.params, self.opt = self._fit(method, opt_kws)
+        self.params, self.opt = self._fit(opt_kws=opt_kws)
         n, n_params = self.n, len(self.params)
         q = self.q
         self.n_params = n_params
-- 
2.43.0


From ae0c0014796d89304597bbd84df1ddeab392bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 25/90] fix: Freedman-Lane test uses the residual variance of
 the permuted response

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/ols.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index e38cc0a..6829280 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1401,7 +1401,7 @@ class LinearModel(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index f0026cc..925d8a0 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -525,7 +525,7 @@ class OLS(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
-- 
2.43.0


From d6a64b5f9d11a5d4672f73edb4080bd1b0e37c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 26/90] fix: OLS stores the t values its permutation test
 compares against

---
 pystatsm/pyglm/linear_model.py | 1 +
 pystatsm/pyglm2/ols.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 6829280..0f1aec1 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1204,6 +1204,7 @@ class LinearModel(RegressionMixin, LikelihoodModel):
         self.scale_ml = np.sqrt(sse / self.n)
         self.scale_unbiased = np.sqrt(sse / (self.n - self.p))
         self.beta = beta
+        self.tvalues = beta / (self.scale_unbiased * np.sqrt(np.diag(Ginv)))
         self.params = params
         self.params_hess = self.hessian(self.params)
         self.params_cov = np.linalg.inv(self.params_hess)
diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index 925d8a0..72f8689 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -293,6 +293,7 @@ class OLS(RegressionMixin, LikelihoodModel):
         self.scale_ml = np.sqrt(sse / self.n)
         self.scale_unbiased = np.sqrt(sse / (self.n - self.p))
         self.beta = beta
+        self.tvalues = beta / (self.scale_unbiased * np.sqrt(np.diag(Ginv)))
         self.params = params
         self.params_hess = self.hessian(self.params)
         self.params_cov = np.linalg.inv(self.params_hess)
-- 
2.43.0


From 806451f30c1209a88a851629dffb43d1400baed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 27/90] fix: dcorr permutation p-value divides by the number of
 permutations

---
 pystatsm/misc/independence_tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/misc/independence_tests.py b/pystatsm/misc/independence_tests.py
index 60112bc..010e5e3 100644
--- a/pystatsm/misc/independence_tests.py
+++ b/pystatsm/misc/independence_tests.py
@@ -80,7 +80,7 @@ def _dcorr_permutation_test(X, Y, n_perms=1000, unbiased=True):
     for i in numba.prange(n_perms):
         rp =  _dcorr(X, Y[np.random.permutation(n)], unbiased=unbiased)
         c += abs(rp)>abs(r)
-    p = c / n
+    p = c / n_perms
     return r, p
     
 @numba.jit(nopython=True, parallel=True)
-- 
2.43.0


From d10924cff020cac32a014d63e2eca51f73d85a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:33 +0000
Subject: [PATCH 28/90] fix: stored permutation test compares absolute t values
 replicate by replicate

---
 pystatsm/pyglm/ols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index cb34e74..7560604 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -218,8 +218,8 @@ class OLS:
         L, Linv, X, y = self.L, self.Linv, self.X, self.y
         if store_samples:
             t_samples = self._permutation_test_store(n_perms, L, Linv, X, y, verbose)
-            abst = t_samples
-            p_values_fwer = (abst.max(axis=1)>np.abs(self.tvalues)).sum(axis=0)/n_perms
+            abst = np.abs(t_samples)
+            p_values_fwer = (abst.max(axis=1, keepdims=True)>np.abs(self.tvalues)).sum(axis=0)/n_perms
             p_values = (abst > np.abs(self.tvalues)).sum(axis=0) / n_perms
         else:
             p_values_fwer, p_values =  self._permutation_test(n_perms, L, Linv, X, y, verbose)
-- 
2.43.0


From 730f96d6019ba4271090b8e045b6556639cfdb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 29/90] fix: ordinal bootstrap restores its offsets when a
 replicate fails

---
 pystatsm/pyglm/clm.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 74cb009..ccce30f 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -213,21 +213,21 @@ class CLM:
         n = self.X.shape[0]
         j = np.random.choice(n, n)
         
-        B1b, B2b, o1b, o2b, ixb = B1[j], B2[j], o1[j], o2[j], ix[j]
-        self.o1, self.o2, self.ix = o1b, o2b, ixb
         pbar = tqdm.tqdm(total=n_boot, smoothing=0.001)
-        for i in range(n_boot):
-            j = np.random.choice(n, n)
-            B1b, B2b, o1b, o2b, ixb = B1[j], B2[j], o1[j], o2[j], ix[j]
-            self.o1, self.o2, self.ix = o1b, o2b, ixb
-            optf = self._optimize(t_init, (B1b, B2b), 
-                                  {'options':dict(verbose=0,  gtol=1e-4, 
-                                                  xtol=1e-4)})
-            beta_samples[i] = optf.x
-            pbar.update(1)
+        try:
+            for i in range(n_boot):
+                j = np.random.choice(n, n)
+                B1b, B2b, o1b, o2b, ixb = B1[j], B2[j], o1[j], o2[j], ix[j]
+                self.o1, self.o2, self.ix = o1b, o2b, ixb
+                optf = self._optimize(t_init, (B1b, B2b), 
+                                      {'options':dict(verbose=0,  gtol=1e-4, 
+                                                      xtol=1e-4)})
+                beta_samples[i] = optf.x
+                pbar.update(1)
+        finally:
+            self.o1, self.o2, self.ix = o1, o2, ix
         pbar.close()
         self.beta_samples = beta_samples
-        self.o1, self.o2, self.ix = o1, o2, ix
         samples_df = pd.DataFrame(self.beta_samples, columns=self.res.index)
         boot_res = samples_df.agg(["mean", "std", "min"]).T
         boot_res["pct1.0%"] = sp.stats.scoreatpercentile(beta_samples, 1.0, axis=0)
-- 
2.43.0


From 2106da236f43ea7ef968d8c329773da0bc2d14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 30/90] fix: negative binomial bootstrap restores the response
 it resampled

---
 pystatsm/pyglm/nb2.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index f843d93..ea98614 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -176,25 +176,26 @@ class NegativeBinomial(object):
         self.fit()
         t_init = self.params.copy()
         beta_samples = np.zeros((n_boot, len(t_init)))
-        X, Y = self.X.copy(), self.Y.copy()
+        X, y = self.X, self.y
         n = self.X.shape[0]
         ix = np.random.choice(n, n)
         
-        Xb, Yb = X.copy(), Y.copy()
         pbar = tqdm.tqdm(total=n_boot)
-        for i in range(n_boot):
-            ix = np.random.choice(n, n)
-            self.X, self.y = Xb[ix], Yb[ix][:, 0]
-            optf = sp.optimize.minimize(self.loglike, 
-                                        t_init, method='trust-constr',
-                                        jac=self.gradient, 
-                                        hess=self.hessian,
-                                        options=opt_kws)
-            beta_samples[i] = optf.x
-            pbar.update(1)
+        try:
+            for i in range(n_boot):
+                ix = np.random.choice(n, n)
+                self.X, self.y = X[ix], y[ix]
+                optf = sp.optimize.minimize(self.loglike, 
+                                            t_init, method='trust-constr',
+                                            jac=self.gradient, 
+                                            hess=self.hessian,
+                                            options=opt_kws)
+                beta_samples[i] = optf.x
+                pbar.update(1)
+        finally:
+            self.X, self.y = X, y
         pbar.close()
         self.beta_samples = beta_samples
-        self.X, self.Y = X, Y
         samples_df = pd.DataFrame(self.beta_samples, columns=self.res.index)
         boot_res = samples_df.agg(["mean", "std", "min"]).T
         boot_res["pct1.0%"] = sp.stats.scoreatpercentile(beta_samples, 1.0, axis=0)
-- 
2.43.0


From 0164375b42d80e84ea01e2aefd73caac7646441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 31/90] fix: NegativeBinomial no longer writes into its options
 argument or default

---
 pystatsm/pyglm/nb2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index ea98614..08941e6 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -101,7 +101,8 @@ class NegativeBinomial(object):
         dev = 2.0 * (np.sum(dev1) + np.sum(dev2))
         return dev
     
-    def fit(self, opt_kws={}):
+    def fit(self, opt_kws=None):
+        opt_kws = {} if opt_kws is None else dict(opt_kws)
         default_opt_kws = dict(options=dict(verbose=0), 
                                         method='trust-constr')
                                         
@@ -168,7 +169,8 @@ class NegativeBinomial(object):
         mu_hat = np.exp(X.dot(b))
         return mu_hat
     
-    def bootstrap(self, n_boot=2000, opt_kws={}):
+    def bootstrap(self, n_boot=2000, opt_kws=None):
+        opt_kws = {} if opt_kws is None else dict(opt_kws)
         default_opt_kws = dict(gtol=1e-4, xtol=1e-4, verbose=0)
         for key, val in default_opt_kws.items():
             if key not in opt_kws.keys():
-- 
2.43.0


From 15bb1a8f09004696ce6a1ca5febe4f784955251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 32/90] fix: GLM Hessian with a free scale uses the data it is
 evaluated on

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 8406d24..c5413e5 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -155,7 +155,7 @@ class GLM:
         H = (X.T * w).dot(X)
         if self.scale_handling == 'NR':
             d2t = np.atleast_2d(self.f.d2tau(tau, Y, mu))
-            dbdt = -np.atleast_2d(self.gradient(params)[:-1])
+            dbdt = -np.atleast_2d(self.gradient(params, X=X, Y=Y)[:-1])
             H = np.block([[H, dbdt.T], [dbdt, d2t]])
         return H 
     
-- 
2.43.0


From 957e62125ae9291dc270080e0f5bdfe0f947fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 33/90] fix: expected Hessian weights count the prior weights
 once

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8a681ee..5686a46 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -171,7 +171,7 @@ class ExponentialFamily(metaclass=ABCMeta):
     def get_ehw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         den = self.variance(mu=mu, weights=weights, phi=phi, dispersion=dispersion) 
         den = den * self.dlink(mu)**2
-        w = weights / den
+        w = 1.0 / den
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-- 
2.43.0


From 87b55d97fce5c1a3b5cfe8a0cbd4f29f43745fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 34/90] fix: one-step jacknife leaves out the observation's own
 contribution

---
 pystatsm/pyglm/linear_model.py | 8 +++++---
 pystatsm/pyglm2/glm.py         | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 0f1aec1..e846bd8 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1795,7 +1795,7 @@ class GLM(RegressionMixin, LikelihoodModel):
 
     
     def _one_step_approx(self, WX, h, rp):
-        y = rp / np.sqrt(1 - h)
+        y = rp / (1 - h)
         db = WX.dot(np.linalg.inv(np.dot(WX.T, WX))) * y.reshape(-1, 1)
         return db
         
@@ -1870,9 +1870,11 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            sw = np.sqrt(w)
+            WX = self.X * sw
             h = self._compute_leverage_qr(WX)
-            one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
+            rw = sw[:, 0] * self.resid_raw * self.f.dlink(self.mu)
+            one_step = self._one_step_approx(WX, h, rw)
             jacknife_samples = self.params.reshape(1, -1) - one_step
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
                                         columns=self.param_labels)
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index d3eb65e..0d39a85 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -412,7 +412,7 @@ class GLM(RegressionMixin, LikelihoodModel):
 
     
     def _one_step_approx(self, WX, h, rp):
-        y = rp / np.sqrt(1 - h)
+        y = rp / (1 - h)
         db = WX.dot(np.linalg.inv(np.dot(WX.T, WX))) * y.reshape(-1, 1)
         return db
         
@@ -487,9 +487,11 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            sw = np.sqrt(w)
+            WX = self.X * sw
             h = self._compute_leverage_qr(WX)
-            one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
+            rw = sw[:, 0] * self.resid_raw * self.f.dlink(self.mu)
+            one_step = self._one_step_approx(WX, h, rw)
             jacknife_samples = self.params.reshape(1, -1) - one_step
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
                                         columns=self.param_labels)
-- 
2.43.0


From eaf93992d058583c21f6291706ce262053a38503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 35/90] fix: GLM bootstrap resamples the weights with the rows

---
 pystatsm/pyglm/glm.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index c5413e5..fcdc249 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -6,6 +6,7 @@ Created on Sun Oct  4 19:23:32 2020
 @author: lukepinkel
 """
 
+import copy
 import tqdm
 import patsy  # analysis:ignore
 import numpy as np # analysis:ignore
@@ -326,21 +327,27 @@ class GLM:
         t_init = self.params
         theta_samples = np.zeros((n_boot, len(t_init)))
         pbar = tqdm.tqdm(total=n_boot)
-        for i in range(n_boot):
-            ix = np.random.choice(self.X.shape[0], self.X.shape[0])
-            if method == 'sp':
-                theta_samples[i] = self._fit_optim(opt_kws=opt_kws,
-                                               t_init=t_init, 
-                                               X=self.X[ix], 
-                                               Y=self.Y[ix]).x
-            elif method == "ee":
-                theta_samples[i], _ = self._fit_estimating_equations(theta_init=t_init, 
-                                               X=self.X[ix], 
-                                               Y=self.Y[ix])
-            else:
-                theta_samples[i], _ = self._bootfit(params=t_init, X=self.X[ix],
+        f, w = self.f, self.f.weights
+        try:
+            self.f = copy.copy(f)
+            for i in range(n_boot):
+                ix = np.random.choice(self.X.shape[0], self.X.shape[0])
+                self.f.weights = w[ix] if np.ndim(w) > 0 else w
+                if method == 'sp':
+                    theta_samples[i] = self._fit_optim(opt_kws=opt_kws,
+                                                   t_init=t_init, 
+                                                   X=self.X[ix], 
+                                                   Y=self.Y[ix]).x
+                elif method == "ee":
+                    theta_samples[i], _ = self._fit_estimating_equations(theta_init=t_init, 
+                                                   X=self.X[ix], 
                                                    Y=self.Y[ix])
-            pbar.update(1)
+                else:
+                    theta_samples[i], _ = self._bootfit(params=t_init, X=self.X[ix],
+                                                       Y=self.Y[ix])
+                pbar.update(1)
+        finally:
+            self.f = f
         pbar.close()
         k = self.n_obs-self.n_feats
         self.res.insert(2, "SE_boot", theta_samples.std(axis=0))
-- 
2.43.0


From 1eeae8aaa9e833cabaa18f2bb35a6d6e01941a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 36/90] fix: linear_model.GLM bootstrap runs without a progress
 bar

---
 pystatsm/pyglm/linear_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index e846bd8..a287b4c 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1892,7 +1892,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             ii = rng.choice(n, size=n, replace=True)
             opt = self._optimize(data=(X[ii], y[ii], w[ii]), f=self.f)
             boot_samples[i] = opt.x
-            pbar.update(1)
+            if verbose:
+                pbar.update(1)
         if verbose:
             pbar.close()
         boot_samples = pd.DataFrame(boot_samples,columns=self.param_labels)
-- 
2.43.0


From 5713d3587ae915c0bc7a51dbc8b8c0e9911c7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 37/90] fix: OLS.fit publishes its result table after the
 quantities that go with it

---
 pystatsm/pyglm/ols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index 7560604..8d4d97e 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -137,13 +137,13 @@ class OLS:
         self.ssq = pd.DataFrame([[ssr, dfr, msr], 
                                  [ssm, dfm, msm],
                                  [sst, dft, mst]], index=ssq_ind, columns=ssq_col)
-        self.res = res
         self.beta, self.beta_se = beta, beta_se
         self.tvalues = self.beta / self.beta_se
         self.Ginv = np.dot(self.Linv.T, self.Linv)
         self.Vbeta = self.Ginv * msr
         self.s2 = msr
         self.resids = resids
+        self.res = res
     
     def _permutation_test_store(self,n_perms, L, Linv, X, y, verbose):
         pbar = tqdm.tqdm(total=n_perms) if verbose else None
-- 
2.43.0


From de9c0de3b47d4619b2dc27a56a272e3429831d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 38/90] fix: SEM maps parameters to groups and equality
 constraints by their position in the free table

---
 pystatsm/pysem2/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 79457b8..6356945 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -442,7 +442,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         unique_values, inverse_mapping, indices = indexing_utils.unique(ftable["label"])
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(inverse_mapping).T
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
@@ -450,7 +450,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         self.dfree_dgroup = {}
         self.free_to_group_free = {}
         for i in range(self.n_groups):
-            ix = self.free_df.loc[self.free_df["group"] == i, "theta_index"]
+            ix = np.flatnonzero(self.free_df["group"] == i)
             cols = ix
             nrows = len(ix)
             ncols = self.free_df.shape[0]
-- 
2.43.0


From 6b58dcb7d97c2cc708ae5343080e0c81e19a8ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 39/90] fix: SEM does not add a fixed unit residual variance to
 observed endogenous variables

---
 pystatsm/pysem2/model_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 6356945..dc23ced 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -263,7 +263,7 @@ class ParameterMapping:
             elif i == 2:
                 mat_template = np.eye(mat_dims[i][0])
             elif i == 3:
-                inx = [ov_order[x] for x in var_names["onx"]]
+                inx = [ov_order[x] for x in var_names["onx"] - var_names["lav"]]
                 mat_template[inx, inx] = 1.0
             else:
                 mat_template = np.zeros(mat_dims[i])
-- 
2.43.0


From 0df29a6c8478bb8a35be4a73d5e3e031a20eebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 40/90] fix: second derivative of the SEM mean is symmetric in
 the regression coefficients

---
 pystatsm/pysem2/derivatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/derivatives.py b/pystatsm/pysem2/derivatives.py
index be669a9..580ed7e 100644
--- a/pystatsm/pysem2/derivatives.py
+++ b/pystatsm/pysem2/derivatives.py
@@ -81,7 +81,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(C3.dot(Ji) + C2.dot(Jj)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From f10219d7dcdb906cc40e2ddd842852a8d98b05ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 41/90] fix: SEM discrepancy constant uses the covariance of
 the model's variables only

---
 pystatsm/pysem2/model_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 61e946e..3d7e8e1 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -51,6 +51,8 @@ class ModelData(object):
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            lndS = np.linalg.slogdet(self.sample_cov[i])[1]
+            self.const[i] = -lndS - self.sample_cov[i].shape[0]
 
     @staticmethod
     def _convert_to_dict(data):
-- 
2.43.0


From 23c207b518505bdf42ac42f3c26dccf52ebdfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 42/90] fix: SEM model data can be built from sample statistics
 and leaves the caller's dictionaries alone

---
 pystatsm/pysem2/model_data.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 3d7e8e1..c17fcf9 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -119,12 +119,9 @@ class ModelData(object):
             raise ValueError(
                 "Sample covariance, mean and observations should be either all dictionaries or all a combination of DataFrame/Array/Series/Integer.")
 
-        sample_cov_df = {}
-        sample_mean_df = {}
-        for i in range(n_groups):
-            sample_cov[i], sample_cov_df[i] = cls._to_dataframe_and_array(
-                sample_cov[i])
-            sample_mean[i], sample_mean_df[i] = cls._to_dataframe_and_array(
-                sample_mean[i])
+        sample_cov = {i: cls._to_dataframe_and_array(sample_cov[i])[1]
+                      for i in range(n_groups)}
+        sample_mean = {i: cls._to_dataframe_and_array(sample_mean[i])[1]
+                       for i in range(n_groups)}
 
         return cls(sample_cov=sample_cov, sample_mean=sample_mean, n_obs=n_obs, ddof=ddof)
-- 
2.43.0


From b60f61e2fe34a737add1f1f437b2848d4e67f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 43/90] fix: Newton fit of GLM no longer overwrites the start
 values

---
 pystatsm/pyglm/glm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index fcdc249..17d0ddc 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -202,8 +202,7 @@ class GLM:
     
     def _fit_manual(self, theta=None):
 
-        if theta is None:
-            theta = self.theta_init
+        theta = (self.theta_init if theta is None else theta).copy()
     
         fit_hist = {'|g|':[], 'theta':[], 'i':[], 'll':[],
                     'step_half_success':[], 'n_step_halves':[]}
-- 
2.43.0


From 840bdbc0b1f88d48b079b9fd8e08aedc28f995e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 44/90] fix: refitting LMM and FactorAnalysis starts from the
 start values, not from transformed estimates

---
 pystatsm/pyfa/factor_analysis.py | 3 ++-
 pystatsm/pylmm/lmm.py            | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 52d7068..43efeb3 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -92,6 +92,7 @@ class FactorAnalysis(object):
         psi = np.diag(self.S - np.dot(L, L.T))
         self.theta[self.lix] = vec(L)
         self.theta[self.pix] = np.log(psi)
+        self.theta_init = self.theta.copy()
 
     def model_matrices(self, theta):
         """
@@ -604,7 +605,7 @@ class FactorAnalysis(object):
         """
         hess = self.hessian if hess else None
         opt_kws = {} if opt_kws is None else opt_kws
-        self.opt = sp.optimize.minimize(self.loglike, self.theta, jac=self.gradient,
+        self.opt = sp.optimize.minimize(self.loglike, self.theta_init, jac=self.gradient,
                                         hess=hess, method='trust-constr', **opt_kws)
         self.theta = self.opt.x.copy()
         self.A, self.Psi = self.model_matrices(self.theta)
diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 31449bd..234e82b 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -77,6 +77,7 @@ class LMM(object):
         self.dR = sps.eye(self.n)
         self.jac_inds = random_effects.jac_inds
         self.theta = random_effects.theta
+        self.theta_init = self.theta.copy()
         self.n_par = random_effects.n_par
         self.H = random_effects.H
         self.elim_mats = random_effects.elim_mats
@@ -560,14 +561,14 @@ class LMM(object):
                 hess = lambda x, reml: so_gc_cd(self.gradient_chol, x, args=(reml,))
             else:
                 hess = None
-            optimizer = sp.optimize.minimize(self.loglike_c, self.theta, args=(reml,),
+            optimizer = sp.optimize.minimize(self.loglike_c, self.theta_init, args=(reml,),
                                              jac=self.gradient_chol, hess=hess,
                                              options=opt_kws, bounds=self.bounds,
                                              method='trust-constr', **optimize_kws)
         else:
             jac = lambda x, reml: fo_fc_cd(self.loglike_c, x, args=(reml,))
             hess = lambda x, reml: so_fc_cd(self.loglike_c, x, args=(reml,))
-            optimizer = sp.optimize.minimize(self.loglike_c, self.theta, args=(reml,),
+            optimizer = sp.optimize.minimize(self.loglike_c, self.theta_init, args=(reml,),
                                              jac=jac, hess=hess, bounds=self.bounds,
                                              method='trust-constr', options=opt_kws,
                                              **optimize_kws)
-- 
2.43.0


From c6a447a9ed4ca0392e4656c6f186a50e781099f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 45/90] fix: FactorAnalysis Hessians no longer depend on the
 number of earlier calls

---
 pystatsm/pyfa/factor_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 43efeb3..079204d 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -201,7 +201,7 @@ class FactorAnalysis(object):
         H2 = 1.0 * DGp.T.dot(W2).dot(DGp)
 
         Hpp = []
-        Dp, Ik, E = self.Dp, self.Ik, self.E
+        Dp, Ik, E = self.Dp, self.Ik, self.E*0.0
         Hij = np.zeros((self.n_pars, self.n_pars))
         for i in range(self.n_vars):
             for j in range(i, self.n_vars):
@@ -279,7 +279,7 @@ class FactorAnalysis(object):
     def d2sigma_augmented(self, params):
         L, Phi, Psi = self.model_matrices_augmented(params)
         Hpp = []
-        Ik, E = self.Ik, self.E
+        Ik, E = self.Ik, self.E*0.0
         ix = vech(np.eye(L.shape[1]))!=1
         Hij = np.zeros((self.nt, self.nt))
         for i in range(self.n_vars):
@@ -396,7 +396,7 @@ class FactorAnalysis(object):
         H2 = 1.0 * DGp.T.dot(W2).dot(DGp)
         ix = vech(np.eye(L.shape[1]))!=1
         Hpp = []
-        Dp, Ik, E = self.Dp, self.Ik, self.E
+        Dp, Ik, E = self.Dp, self.Ik, self.E*0.0
         Hij = np.zeros((self.nt, self.nt))
         for i in range(self.n_vars):
             for j in range(i, self.n_vars):
-- 
2.43.0


From a944f7270ce851901ee0ede7c7349f64c97989ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 46/90] fix: SEM refits start from the start values and leave
 the caller's options alone

---
 pystatsm/pysem/sem.py                  | 3 ++-
 pystatsm/pysem2/model_specification.py | 1 +
 pystatsm/pysem2/sem.py                 | 7 +++----
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 17692b6..670262d 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -152,6 +152,7 @@ class SEM:
         self.theta_indices = theta_indices
         self.params_template = params_template
         self.theta = theta
+        self.theta_init = theta.copy()
         self.param_parts = param_parts
         self.slices = slices
         self.mat_shapes = mat_shapes
@@ -525,7 +526,7 @@ class SEM:
         hess = self.hessian if use_hess else None
         null_model = self._default_null_model if null_model is None else null_model
         
-        theta = self.theta.copy()
+        theta = self.theta_init.copy()
         opt = sp.optimize.minimize(self.loglike, theta, jac=self.gradient,
                                    hess=hess, method='trust-constr',
                                    bounds=self.bounds, **opt_kws)
diff --git a/pystatsm/pysem2/model_specification.py b/pystatsm/pysem2/model_specification.py
index e554830..48103aa 100644
--- a/pystatsm/pysem2/model_specification.py
+++ b/pystatsm/pysem2/model_specification.py
@@ -66,6 +66,7 @@ class ModelSpecification(ModelBase):
         self.n = np.sum(self.gsizes)
         self.make_derivative_matrices()
         self.theta = self.transform_free_to_theta(self.free)
+        self.theta_init = self.theta.copy()
 
     def make_derivative_matrices(self):
         """
diff --git a/pystatsm/pysem2/sem.py b/pystatsm/pysem2/sem.py
index 7f16f08..c80c1b4 100644
--- a/pystatsm/pysem2/sem.py
+++ b/pystatsm/pysem2/sem.py
@@ -404,7 +404,8 @@ class SEM(ModelSpecification):
             hess = self.hessian
         else:
             hess = None
-        theta = self.theta if theta_init is None else theta_init
+        theta = self.theta_init if theta_init is None else theta_init
+        minimize_options = {} if minimize_options is None else minimize_options
         if "method" in minimize_options:
             if minimize_options["method"] == "trust-constr":
                 default_minimize_options = dict(initial_tr_radius=1.0, verbose=3)
@@ -436,9 +437,7 @@ class SEM(ModelSpecification):
         res = self._fit(theta_init=theta_init, minimize_kws=minimize_kws,
                         minimize_options=minimize_options, use_hess=use_hess)
         if np.linalg.norm(res.get("grad", res.get("jac", self.gradient(res.x)))) > 1e16:
-            if minimize_options is None:
-                minimize_options = {}
-            minimize_options["initial_tr_radius"] = 0.01
+            minimize_options = handle_default_kws(dict(initial_tr_radius=0.01), minimize_options)
             res = self._fit(minimize_kws=minimize_kws,
                             minimize_options=minimize_options, use_hess=use_hess)
         self.opt_res = res
-- 
2.43.0


From 5f3df2e315ad5fab10049de8a174bfa1f02c52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 47/90] fix: additive models refit from the start values

---
 pystatsm/pygam/gam.py                     | 3 ++-
 pystatsm/pygam/gauls.py                   | 3 ++-
 pystatsm/pygam/gaussian_additive_model.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index ddae4b4..39cf500 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -69,6 +69,7 @@ class GAM:
         theta[-1] = 1.0
         varnames += ["log_scale"]
         self.theta = theta
+        self.theta_init = theta.copy()
         self.varnames = varnames
         self.smooth_info = smooth_info
 
@@ -597,7 +598,7 @@ class GAM:
             hess = lambda x: so_gc_cd(self.gradient, x)
         else:
             hess = self.hessian
-        x = self.theta.copy()
+        x = self.theta_init.copy()
 
         lb = np.concatenate([np.full(self.ns, -30.0), [-50.0]])
         ub = np.concatenate([np.full(self.ns, 22.0), [50.0]])
diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index eebf2ad..aa58961 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -156,6 +156,7 @@ class GauLS:
         self.mp = self.m.mp + self.s.mp
         self.ranks = self.m.ranks + self.s.ranks
         self.theta = np.ones(self.ns)
+        self.theta_init = self.theta.copy()
         x_varnames = [f"m({x})" for x in self.m.x_varnames] + \
                      [f"s({x})" for x in self.s.x_varnames]
         t_varnames = [f"m({x})" for x in self.m.t_varnames] + \
@@ -1012,7 +1013,7 @@ class GauLS:
         grad, hess = fun_grad_hess.derivative, fun_grad_hess.hessian
 
 
-        x = self.theta.copy()
+        x = self.theta_init.copy()
 
         opt_kws = dict(opt_kws)
         opt_kws.setdefault("bounds", sp.optimize.Bounds(np.full(self.ns, -30.0), np.full(self.ns, 22.0)))
diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index aff5b45..c0fe27f 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -75,6 +75,7 @@ class GaussianAdditiveModel:
         theta[-1] = 1.0
         varnames += ["log_scale"]
         self.theta = theta
+        self.theta_init = theta.copy()
         self.varnames = varnames
         self.smooth_info = smooth_info
 
@@ -253,7 +254,7 @@ class GaussianAdditiveModel:
         return fig, ax
     
     def optimize_penalty(self, opt_kws={}):
-        x = self.theta.copy()
+        x = self.theta_init.copy()
         opt = sp.optimize.minimize(self.reml, x, jac=self.gradient, 
                                    hess=self.hessian, method='trust-constr',
                                    **opt_kws)
-- 
2.43.0


From 170bcd2961962e29c27810c35cac73b6ed7a6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 48/90] fix: an interrupted SEM Hessian no longer corrupts
 later ones

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 670262d..686f6cc 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -385,7 +385,7 @@ class SEM:
         Hpp = []
         U, A = IB.dot(PH).dot(IB.T), LA.dot(IB)
         Q = LA.dot(U)
-        Kp, Kq, D, Dp, E = self.Kkp, self.Kq, self.Dk, self.Dp, self.E
+        Kp, Kq, D, Dp, E = self.Kkp, self.Kq, self.Dk, self.Dp, self.E*0.0
         Hij = np.zeros((self.n_params, self.n_params))
         for i in range(self.n_mvars):
             for j in range(i, self.n_mvars):
-- 
2.43.0


From 4addb64cffda09158622ede080ce3e6aa31a0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 49/90] fix: simulators no longer write into the caller's
 dictionaries

---
 pystatsm/pyglm/glm_sim.py    | 3 +--
 pystatsm/pyglm2/model_sim.py | 3 +--
 pystatsm/pylmm/sim_lmm.py    | 1 +
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index b6259dc..26ff126 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -31,11 +31,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index d95c3a0..94d26d4 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -33,11 +33,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 4280936..911e0a5 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -111,6 +111,7 @@ class MixedModelSim:
         
         df, re_groupings, cont_vars = parse_vars(formula, model_dict)
         
+        model_dict = {**model_dict, "gcov": dict(model_dict["gcov"])}
         ginfo = model_dict['ginfo']
         for x in re_groupings:
             if x not in group_dict.keys():
-- 
2.43.0


From fbf2255b5b65ed342a6518538ecf05bfa7bf014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 50/90] fix: random factor correlations are matrices, and
 random correlations of one variable exist

---
 pystatsm/pyfa/simulate_factor_model.py | 2 +-
 pystatsm/pyfa2/simulation.py           | 2 +-
 pystatsm/utilities/random.py           | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 6bee17f..604ff6c 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -49,7 +49,7 @@ class FactorModelSim(object):
         r_kws = {} if r_kws is None else r_kws
         r_kws = {**default_r_kws, **r_kws}
         if random:
-            Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws)
+            Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws)[0, 0]
         else:
             Phi = rho**sp.linalg.toeplitz(np.arange(self.n_facs))
             s = (-1)**np.arange(self.n_facs).reshape(-1, 1)
diff --git a/pystatsm/pyfa2/simulation.py b/pystatsm/pyfa2/simulation.py
index 7c52563..9db897f 100644
--- a/pystatsm/pyfa2/simulation.py
+++ b/pystatsm/pyfa2/simulation.py
@@ -32,7 +32,7 @@ def generate_loadings(p, m, low=0.4, high=0.9, random=False, rng=None):
 
 def generate_factor_corr(m, rho=0.5, random=False, eta=2.0, rng=None):
     if random:
-        return r_lkj(n=1, dim=m, eta=eta, rng=rng)
+        return r_lkj(n=1, dim=m, eta=eta, rng=rng)[0, 0]
     Phi = rho ** sp.linalg.toeplitz(np.arange(m))
     s = (-1) ** np.arange(m).reshape(-1, 1)
     return s * Phi * s.T
diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 68ffbdc..6678afa 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -206,6 +206,8 @@ def r_lkj_cholesky(eta=1.0, n=1, dim=1, rng=None, seed=None):
 
     eta = np.atleast_1d(eta)
     batch_shape = np.concatenate([[n], np.shape(eta)], axis=0).astype(np.int32)
+    if dim == 1:
+        return np.ones(list(batch_shape) + [1, 1])
     beta = eta + (dim - 2.) / 2.
     dimension_range = np.arange(1., dim)
     a = dimension_range / 2.
-- 
2.43.0


From dfea76ec9c4cef9da3b52db72e30c7361b87a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 51/90] fix: simulators draw everything from the generator they
 are given

---
 pystatsm/pyfa/simulate_factor_model.py | 2 +-
 pystatsm/pyfa2/sim_factor_model.py     | 4 ++--
 pystatsm/pyglm2/model_sim.py           | 9 +++++----
 pystatsm/pyrobust/robust_model_sim.py  | 3 ++-
 pystatsm/pyscca/cca_sim.py             | 3 ++-
 pystatsm/pysem2/model_simulator.py     | 7 ++++---
 6 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 604ff6c..4e933d6 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -81,7 +81,7 @@ class FactorModelSim(object):
         
     def simulate_data(self, n_obs=1000, exact=True):
         if exact:
-            Z = exact_rmvnorm(n=n_obs, S=self.C)
+            Z = exact_rmvnorm(n=n_obs, S=self.C, seed=int(self.rng.integers(2**31)))
         else:
             Z = self.rng.multivariate_normal(mean=np.zeros(self.n_vars+self.n_facs),
                                              cov=self.C, size=n_obs)
diff --git a/pystatsm/pyfa2/sim_factor_model.py b/pystatsm/pyfa2/sim_factor_model.py
index a830d7e..e5afdfd 100644
--- a/pystatsm/pyfa2/sim_factor_model.py
+++ b/pystatsm/pyfa2/sim_factor_model.py
@@ -43,7 +43,7 @@ def run(p, m, n_obs, n_rep, rotation_kind='ortho', seed=0):
     rng = np.random.default_rng(seed)
     L_true = generate_loadings(p, m, rng=rng)
     L_true = L_true + L_true[:, np.r_[-1, np.arange(m - 1)]] / 8
-    Phi_true = np.eye(m) if rotation_kind == 'ortho' else generate_factor_corr(m)
+    Phi_true = np.eye(m) if rotation_kind == 'ortho' else generate_factor_corr(m, rng=rng)
     psi_true = generate_uniquenesses(p, rng=rng)
     model = FactorModel(L_true, Phi_true, psi_true)
 
@@ -87,7 +87,7 @@ def run(p, m, n_obs, n_rep, rotation_kind='ortho', seed=0):
         theta_a = est.layout.pack(L_a, Phi_a, psi)
         M = alignment_matrix(est.layout, free_mask, perm, signs)
         thetas[r] = theta_a[free_mask]
-        Vs[r] = np.matmul(np.matmul(M, V, M.T))
+        Vs[r] = np.matmul(np.matmul(M, V), M.T)
         L_ests[r], Phi_ests[r], psi_ests[r] = L_a, Phi_a, psi
 
     # ---- theta-level diagnostics --------------------------------------------
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index 94d26d4..ad15ba9 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -28,7 +28,7 @@ class LinearModelSim(object):
     def __init__(self, n_obs=1000, n_var=10, formula=None, cat_terms=None,
                  x_vars=None, nlevels=None, corr_kws=None, coef_kws=None,
                  rng=None, seed=None):
-        self.rng = rng if rng is None else np.random.default_rng(seed)
+        self.rng = rng if rng is not None and seed is None else np.random.default_rng(seed)
         self.seed = seed
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
@@ -42,7 +42,8 @@ class LinearModelSim(object):
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
         corr_kws = func_utils.handle_default_kws(corr_kws, {"rng":self.rng})
         self.corr = self._make_corr_matrix(self.n_var, **corr_kws)
-        self.Z1 = self._make_underlying_matrix(self.n_obs, self.corr, seed=self.seed)
+        mat_seed = int(self.rng.integers(2**31)) if seed is None else seed
+        self.Z1 = self._make_underlying_matrix(self.n_obs, self.corr, seed=mat_seed)
         self.Z2 = self.Z1.copy()
         
         for i in self.cat_inds:
@@ -114,8 +115,8 @@ class LinearModelSim(object):
         resid_scale = np.sqrt((1.0 - rsquared) / rsquared * linpred_var)
         return resid_scale
     
-    @staticmethod
-    def _simulate_y(loc, scale, dist=rng.normal):
+    def _simulate_y(self, loc, scale, dist=None):
+        dist = self.rng.normal if dist is None else dist
         y = dist(loc=loc, scale=scale)
         return y
     
diff --git a/pystatsm/pyrobust/robust_model_sim.py b/pystatsm/pyrobust/robust_model_sim.py
index 385d4f8..bfbc1c1 100644
--- a/pystatsm/pyrobust/robust_model_sim.py
+++ b/pystatsm/pyrobust/robust_model_sim.py
@@ -17,7 +17,8 @@ class RobustRegressionModel:
                  beta=None, beta_vals=None,  rsq=None, seed=None, 
                  rng=None, resid_dist=None):
         
-        rng = np.random.default_rng() if rng is None else rng
+        rng = np.random.default_rng(seed) if rng is None else rng
+        seed = int(rng.integers(2**31)) if seed is None else seed
         if resid_dist is None:
             resid_dist = lambda loc, scale, size: students_t(loc, scale, nu=2, 
                                                              size=size, rng=rng)
diff --git a/pystatsm/pyscca/cca_sim.py b/pystatsm/pyscca/cca_sim.py
index b5a7e1a..400c165 100644
--- a/pystatsm/pyscca/cca_sim.py
+++ b/pystatsm/pyscca/cca_sim.py
@@ -73,7 +73,8 @@ class SimCCA(object):
     
     def simulate_data(self, n_obs=1000, exact=False):
         if exact:
-            data = exact_rmvnorm(self.S, n=n_obs, seed=self.seed)
+            seed = int(self.rng.integers(2**31)) if self.seed is None else self.seed
+            data = exact_rmvnorm(self.S, n=n_obs, seed=seed)
         else:
             data = self.rng.multivariate_normal(mean=np.zeros(self.p+self.q),
                                                 cov=self.S, size=n_obs)
diff --git a/pystatsm/pysem2/model_simulator.py b/pystatsm/pysem2/model_simulator.py
index 7ef9738..a5b63fc 100644
--- a/pystatsm/pysem2/model_simulator.py
+++ b/pystatsm/pysem2/model_simulator.py
@@ -28,7 +28,7 @@ class SimulatedSEM:
         nonx_var_list = sorted(formula_parser.var_names["obs"] - set(exog_var_list))
         obs_var_list = exog_var_list + nonx_var_list
         if len(exog_var_list)>0:
-            exog_cov = r_lkj(1, 1, len(exog_var_list)).squeeze()
+            exog_cov = r_lkj(1, 1, len(exog_var_list), rng=self.rng)[0, 0]
             nonx_cov = np.eye(len(nonx_var_list))
             obs_cov = sp.linalg.block_diag(exog_cov, nonx_cov)
         else:
@@ -36,7 +36,8 @@ class SimulatedSEM:
         means = np.linspace(-3, 3, self.n_groups)
         dfs = []
         for i in range(self.n_groups):
-            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)))
+            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)),
+                                seed=int(self.rng.integers(2**31)))
             arr = pd.DataFrame(arr, columns=obs_var_list)
             arr["group"] = i
             dfs.append(arr)
@@ -84,7 +85,7 @@ class SimulatedSEM:
             mu[i] = L[i].dot(B[i]).dot(b[i].T)+a[i].T
         dfs = []
         for i in range(self.n_groups):
-            arr = rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
+            arr = self.rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
             arr = pd.DataFrame(arr, columns=Sigma[i].columns)
             arr["group"] = i
             dfs.append(arr)
-- 
2.43.0


From 9ba29cf34213b2be9a7c04e7b1ff4678969fbc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 52/90] fix: simulated random effects and covariates no longer
 depend on string hash order

---
 pystatsm/pylmm/sim_lmm.py          | 2 +-
 pystatsm/pysem2/model_simulator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 911e0a5..aef9374 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -27,7 +27,7 @@ def parse_vars(formula, model_dict):
         frm = frm.replace(x, "")
     fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
     re_form, re_groupings = list(zip(*groups))
-    re_form, re_groupings = set(re_form), set(re_groupings)
+    re_form, re_groupings = set(re_form), list(dict.fromkeys(re_groupings))
 
     yvars, fe_form = re.split("[~]", fe_form)
     fe_form = re.sub("\+$", "", fe_form)
diff --git a/pystatsm/pysem2/model_simulator.py b/pystatsm/pysem2/model_simulator.py
index a5b63fc..8523332 100644
--- a/pystatsm/pysem2/model_simulator.py
+++ b/pystatsm/pysem2/model_simulator.py
@@ -24,7 +24,7 @@ class SimulatedSEM:
 
     def generate_data(self, n_obs):
         formula_parser = FormulaParser(self.formula)
-        exog_var_list = list(formula_parser.var_names["lox"])
+        exog_var_list = sorted(formula_parser.var_names["lox"])
         nonx_var_list = sorted(formula_parser.var_names["obs"] - set(exog_var_list))
         obs_var_list = exog_var_list + nonx_var_list
         if len(exog_var_list)>0:
-- 
2.43.0


From a4a826d88f8408887113bf38dc0132b1adbda1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 53/90] fix: transforming mixed-model parameters leaves the
 caller's array alone

---
 pystatsm/pylmm/lmm.py            | 2 ++
 pystatsm/pylmm/model_matrices.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 234e82b..5d1786b 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -89,6 +89,7 @@ class LMM(object):
 
 
     def transform_theta(self, theta):
+        theta = np.array(theta)
         for i in range(self.levels):
             G = invech(theta[self.t_inds[i]])
             L = np.linalg.cholesky(G)
@@ -97,6 +98,7 @@ class LMM(object):
         return theta
 
     def inverse_transform_theta(self, theta):
+        theta = np.array(theta)
         for i in range(self.levels):
             L = invech_chol(theta[self.t_inds[i]])
             G = L.dot(L.T)
diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index 8a09ba9..7ed82e5 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -146,6 +146,7 @@ def lndet_gmat_chol(theta, dims, indices):
     return lnd
 
 def transform_theta(theta, dims, indices):
+    theta = np.array(theta)
     for key in dims.keys():
         G = invech(theta[indices['theta'][key]])
         L = np.linalg.cholesky(G)
@@ -155,6 +156,7 @@ def transform_theta(theta, dims, indices):
         
     
 def inverse_transform_theta(theta, dims, indices):
+    theta = np.array(theta)
     for key in dims.keys():
         L = invech_chol(theta[indices['theta'][key]])
         G = L.dot(L.T)
-- 
2.43.0


From c60548064b1931497951286848fce51fab4ca9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 54/90] fix: multivariate_t no longer scales its location by
 the chi-square draw

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 6678afa..3efd282 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -197,7 +197,7 @@ def cauchy(loc, scale, size=None, rng=None):
 def multivariate_t(mean, cov, nu=1, size=None, rng=None):
     rng = np.random.default_rng() if rng is None else rng
     u = np.sqrt(nu / rng.chisquare(df=nu, size=size))[:, np.newaxis]
-    Y = rng.multivariate_normal(mean=mean, cov=cov, size=size)
+    Y = rng.multivariate_normal(mean=np.zeros(len(mean)), cov=cov, size=size)
     X = mean + u * Y
     return X
 
-- 
2.43.0


From ae43e3bc31ac0b1e9870a44cc716821d1b586443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 55/90] fix: truncated normal draws stay within their bounds
 and are not scaled twice when untruncated

---
 pystatsm/utilities/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 3efd282..2c83edc 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -128,7 +128,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(mu, sd)
+            z = np.random.normal(0.0, 1.0)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
@@ -179,7 +179,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
 @numba.jit(nopython=True)
 def trnorm(mu, sd, lb, ub):
     n = len(mu)
-    z = np.zeros((n, ), dtype=numba.float32)
+    z = np.zeros((n, ), dtype=numba.float64)
     for i in range(n):
         z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i])
     return z
-- 
2.43.0


From 4fa54486f55542c4c58365a9d7a234d24e2d30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 56/90] fix: _special_ortho is orthogonal when a leading draw
 is zero

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 2c83edc..88d6799 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -260,7 +260,7 @@ def _special_ortho(dim, rng=None, seed=None):
     D = np.ones((dim,))
     for n in range(1, dim):
         x = rng.normal(size=(dim-n+1,))
-        D[n-1] = np.sign(x[0])
+        D[n-1] = np.sign(x[0]) if x[0] != 0 else 1.0
         x[0] -= D[n-1] * np.sqrt((x * x).sum())
         Hx = (np.eye(dim - n + 1) - 2.*np.outer(x, x) / (x * x).sum())
         mat = np.eye(dim)
-- 
2.43.0


From 17eb4831ff6d61c4756dba49dc57a38d86ab5122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 57/90] fix: InverseGaussian.rvs draws with the family's
 variance phi mu^3

---
 pystatsm/pyglm/families.py  | 2 +-
 pystatsm/pyglm2/families.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8708ca3..e531f54 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -425,7 +425,7 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0/phi)
 
     def ppf(self, q, mu, phi=1.0):
         return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 5686a46..f350c22 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -412,7 +412,7 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0/phi)
 
     def ppf(self, q, mu, phi=1.0):
         return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
-- 
2.43.0


From e9b73269fd40795e3528bce99585612f21adc02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 58/90] fix: elastic-net GLM cross-validation scores the
 coefficients on the scale they were fitted on

---
 pystatsm/pyglmnet/glmen2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 133224f..911233c 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -256,7 +256,8 @@ class ElasticNetGLM(object):
         betas = np.zeros((n_lambdas+1, self.n_var+1))
         fvals = np.zeros((n_lambdas+1, 2))
         fvals_hist = []
-        X = (X - np.mean(X, axis=0)) / np.std(X, axis=0)
+        X_mean, X_sd = np.mean(X, axis=0), np.std(X, axis=0)
+        X = (X - X_mean) / X_sd
         Xsq = X**2
         default_kws = dict(n_iters=1000, ftol=1e-6, lower=-36, upper=36, inner_kws=None)
         kws = {} if kws is None else kws
@@ -281,6 +282,9 @@ class ElasticNetGLM(object):
             #lam0 = lambdas[i]
         if progress_bar is None:
             pbar.close()
+        # coefficients are returned on the scale of the X passed in
+        betas[:, 1:] = betas[:, 1:] / X_sd
+        betas[:, 0] = betas[:, 0] - np.dot(betas[:, 1:], X_mean)
         return betas[1:], fvals[1:], fvals_hist
     
     def _glm_elnet_cv(self, X, Xsq, y, wobs, lambdas=None, cv=10, n_rep=1, 
-- 
2.43.0


From faa9cd4cf9b1b9ef0b2f09138c5d59290095d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 59/90] fix: binomial elastic-net path returns coefficients on
 the scale of X and keeps each path step its own

---
 pystatsm/pyglmnet/binom_eln2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 20b3696..566bfe4 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -197,7 +197,8 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
         lambdas = get_lambdas(X, y, np.ones_like(y), n_lambdas, alpha)
     else:
         n_lambdas = len(lambdas)
-    X = (X - X.mean(axis=0)) / X.std(axis=0)
+    X_mean, X_sd = X.mean(axis=0), X.std(axis=0)
+    X = (X - X_mean) / X_sd
     b0, mu, eta = get_intercept(y, weights)
     halc = (1 - alpha) / 2.0
     Xsq = X**2
@@ -218,13 +219,16 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     pbar = tqdm.tqdm(total=n_lambdas, smoothing=0.0001) if progress_bar is None else progress_bar
     for i, lam in enumerate(lambdas):
         active = np.ones(n_var, dtype=bool)
-        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i], active, **cd_kws)
+        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i].copy(), active, **cd_kws)
         betas[i+1] = beta
         fvals_hist.append(fval)
         fvals[i+1] = fval[-1]
         pbar.update(1)
     if progress_bar is None:
         pbar.close()
+    # coefficients are returned on the scale of the X passed in
+    betas[:, 1:] = betas[:, 1:] / X_sd
+    betas[:, 0] = betas[:, 0] - np.dot(betas[:, 1:], X_mean)
     return betas[1:], fvals[1:], fvals_hist, lambdas
         
 
-- 
2.43.0


From 4bee522849a152d0ae5b88612cc32603eb5725b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 60/90] fix: gaussian elastic-net CV centres held-out y at the
 training mean and starts folds independently

---
 pystatsm/pyglmnet/gaussian_eln.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 73076b6..0fe274e 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -155,12 +155,11 @@ def cv_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, dtol=1e-4, btol=1e-9,
                              intercept=intercept)
             ytk = yt[k]
             if intercept:
-                ytk = ytk - ytk.mean()
+                ytk = ytk - yf[k].mean()
             fi = elnet_loglike(Xt[k], ytk, bi, alpha, lambda_)
             betas_cv[i+1, k] = bi
             fvals[i, k] = fi
             n_its[i, k] = n_i
-            b = bi.copy()
             if verbose:
                 progress_bar.update(1)
         if refit:
-- 
2.43.0


From 9dc101df53544dfa61efc27619ac86f3444835a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 61/90] fix: binomial elastic-net CV scores include the fitted
 intercept

---
 pystatsm/pyglmnet/binomial_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 926698e..49f3bbc 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -492,7 +492,7 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
                                        active=active, btol=btol, dtol=dtol,
                                        n_iters=n_iters, pmin=pmin,nr_ent=nr_ent, 
                                        intercept=intercept)
-            fi = binom_eval(yt[k], Xt[k].dot(bi), bi, alpha, lambda_)
+            fi = binom_eval(yt[k], Xt[k].dot(bi) + b0 * intercept, bi, alpha, lambda_)
             betas_cv[i+1, k] = bi
             b0s_cv[i+1, k] = b0
             fvals[i, k] = fi
-- 
2.43.0


From 8131948236385dc9e136664a305e1591088599f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 62/90] fix: SCCA.fit picks the penalty by the paired
 correlations for any number of components

---
 pystatsm/pyscca/scca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index b78e73b..013a104 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -579,7 +579,10 @@ class SCCA:
         self.Wxcv, self.Wycv, self.rf, self.rt, self.lambdas, optinfo = self.crossval(ncv,
                                                                                       n_comps,
                                                                                       **cv_kws)
-        self.lmax = np.argmax(self.rt.mean(axis=1)[:, [0, 2]].mean(axis=1))
+        # vech positions of the correlations between paired components
+        n_cv_comps = 1 if n_comps is None else n_comps
+        ix = np.cumsum(np.r_[0, np.arange(n_cv_comps, 1, -1)])
+        self.lmax = np.argmax(self.rt.mean(axis=1)[:, ix].mean(axis=1))
         self.lam = self.lambdas[self.lmax]
         self.Wx, self.Wy, self.rho, self.optinfo = self._fit(self.lam, self.lam,
                                                              n_comps,
-- 
2.43.0


From 341a7295db617f8d0b6489e17e2a1cbef03efcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 63/90] fix: binomial elastic-net scores stay finite when a
 held-out probability rounds to 0 or 1

---
 pystatsm/pyglmnet/binomial_eln.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 49f3bbc..78666e7 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -106,8 +106,7 @@ def binom_eval(y, eta, b, alpha, lambda_):
         The penalized deviance
     '''
     P = elnet_penalty(b, alpha, lambda_)
-    mu = inv_logit(eta)
-    ll = (y * np.log(mu)).sum() + ((1.0 - y) * np.log(1.0 - mu)).sum()
+    ll = (y * eta - np.logaddexp(0.0, eta)).sum()
     ll = ll / y.shape[0]
     f = P - ll
     ll = -2.0 * ll
-- 
2.43.0


From 3fd408f6bc20c1f5db9e1a56b141baccc0006453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 64/90] fix: binomial elastic-net path keeps updating
 coefficients that re-enter

---
 pystatsm/pyglmnet/binom_eln2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 566bfe4..9abcf6d 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -153,6 +153,8 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
                 eta, mu, w = get_eta_mu(X, b, b0)
                 r = (y - mu)
                 fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
+        # a coefficient that re-entered must not stay frozen at its current value
+        active[b!=0] = True
         step_halves[i] = ii
         if store_betas:
             betas[i, 1:], betas[i, 0] = b, b0
-- 
2.43.0


From 23b87de7caa650281f2666c13d02080ee57f0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 65/90] fix: unused category levels are not counted as empty
 strata and PSUs

---
 pystatsm/utilities/complexdesign/sample_design.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index da9d63b..000245d 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -46,16 +46,16 @@ def _ensure_columns(df, strata, psuind):
 
 
 def _has_singletons(df, strata, psuind):
-    sizes = df.groupby([strata, psuind]).size()
-    return bool((sizes.groupby(strata).size() == 1).any())
+    sizes = df.groupby([strata, psuind], observed=True).size()
+    return bool((sizes.groupby(strata, observed=True).size() == 1).any())
 
 
 def _aggregate_singletons(df, strata, psuind):
     # Each stratum that has exactly one PSU gets folded into a single new
     # stratum, with its sole PSU re-numbered 0..k-1 to guarantee no collision
     # with existing PSU ids in the new stratum.
-    sizes = df.groupby([strata, psuind]).size()
-    n_psu_per_str = sizes.groupby(strata).size()
+    sizes = df.groupby([strata, psuind], observed=True).size()
+    n_psu_per_str = sizes.groupby(strata, observed=True).size()
     singletons = n_psu_per_str[n_psu_per_str == 1].index
     if len(singletons) == 0:
         return df
@@ -69,8 +69,8 @@ def _aggregate_singletons(df, strata, psuind):
 
 
 def _build_layout(df, strata, psuind, fpc):
-    sizes = df.groupby([strata, psuind]).size().reset_index(name="n")
-    n_psu_per_str = sizes.groupby(strata).size().to_numpy(dtype=np.int64)
+    sizes = df.groupby([strata, psuind], observed=True).size().reset_index(name="n")
+    n_psu_per_str = sizes.groupby(strata, observed=True).size().to_numpy(dtype=np.int64)
     n_psu_obs = sizes["n"].to_numpy(dtype=np.int64)
     n_str = n_psu_per_str.size
     n_grp = n_psu_obs.size
-- 
2.43.0


From aa1ba2dc718fa61e480b55e4596c0b98cc829599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 66/90] fix: singleton strata with labels that are not numbers
 can be aggregated

---
 pystatsm/utilities/complexdesign/sample_design.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index 000245d..841f2b2 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -60,6 +60,13 @@ def _aggregate_singletons(df, strata, psuind):
     if len(singletons) == 0:
         return df
     df = df.copy()
+    # labels that are not numbers are replaced by their rank
+    for col in (strata, psuind):
+        if not pd.api.types.is_numeric_dtype(df[col]):
+            codes, labels = pd.factorize(df[col], sort=True)
+            df[col] = codes
+            if col == strata:
+                singletons = labels.get_indexer(singletons)
     new_stratum = df[strata].max() + 1
     new_psu = {s: i for i, s in enumerate(singletons)}
     mask = df[strata].isin(singletons)
-- 
2.43.0


From c59e2684fbf81ed06e327c582868102a188c0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 67/90] fix: standard errors of a one-parameter replication
 study

---
 pystatsm/utilities/complexdesign/replication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/complexdesign/replication.py b/pystatsm/utilities/complexdesign/replication.py
index 67d7750..d3b3067 100644
--- a/pystatsm/utilities/complexdesign/replication.py
+++ b/pystatsm/utilities/complexdesign/replication.py
@@ -83,7 +83,7 @@ class ReplicationResult:
         return self.params.mean(axis=0) - self.theta_true
 
     def empirical_cov(self):
-        return np.cov(self.params.T, ddof=1)
+        return np.atleast_2d(np.cov(self.params.T, ddof=1))
 
     def mean_analytical_cov(self):
         return self.Vs.mean(axis=0)
-- 
2.43.0


From 1fafbf59087fb6a5d9d3521de4247edbb3854862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 68/90] fix: rows of weight zero contribute nothing to a GLM
 log-likelihood

---
 pystatsm/pyglm2/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index f350c22..a2e33b1 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -93,11 +93,11 @@ class ExponentialFamily(metaclass=ABCMeta):
         
     def loglike(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         ll_i = self._loglike(y, mu, weights, phi, dispersion)
-        return np.sum(ll_i)
+        return np.sum(np.where(np.equal(weights, 0), 0.0, ll_i))
 
     def full_loglike(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         ll_i = self._full_loglike(y, mu, weights, phi, dispersion)
-        return np.sum(ll_i)
+        return np.sum(np.where(np.equal(weights, 0), 0.0, ll_i))
     
     def pearson_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         v = self.var_func(mu, dispersion)
-- 
2.43.0


From d19006616f50233e6600d500b815190b56298985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 69/90] fix: GLM summary at n_obs == n_params + 1 no longer
 raises ZeroDivisionError

---
 pystatsm/pyglm2/likelihood_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 8a08a6b..8a10064 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -146,7 +146,8 @@ class LikelihoodModel(metaclass=ABCMeta):
         logn = np.log(n_obs)
         tll = 2 * ll
         aic = tll + 2 * n_params
-        aicc = tll + 2 * n_params * n_obs / (n_obs - n_params - 1)
+        df = n_obs - n_params - 1
+        aicc = tll + 2 * n_params * n_obs / df if df != 0 else np.inf
         bic = tll + n_params * logn
         caic = tll + n_params * (logn + 1)
         return aic, aicc, bic, caic
-- 
2.43.0


From 80655f3df2e9e291be711a7031d8ab1806fd0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 70/90] fix: B-spline smooths no longer raise TypeError

---
 pystatsm/utilities/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index e284575..b0ccc65 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -168,7 +168,7 @@ def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
     pord = penalty-1
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, degree, deriv=2, intercept=False)
+    G = bspline_basis(k1, all_knots, deriv=2, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
@@ -236,7 +236,7 @@ def _get_crsplines(x, df=10):
     
 def _get_bsplines(x, df=10):
     knots, inner_knots = bspline_knots(x, df)
-    F, S = bspline_penalty(knots, inner_knots)
+    F, S = bspline_penalty(knots, inner_knots, 3)
     X = bspline_basis(x, knots, deriv=0)
     fkws = {"deriv":0}
     return X, S, knots, fkws
-- 
2.43.0


From 92964f367a2d89a30460d6c5d4fc5ee1069da575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 71/90] fix: GauLS without a smooth in the location model

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index aa58961..8c72bdc 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -662,7 +662,7 @@ class GauLS:
         for i, (r, lds) in enumerate(list(zip(self.m.ranks, self.m.ldS))):
             logdet += r * rho[i] + lds
         for j, (r, lds) in enumerate(list(zip(self.s.ranks, self.s.ldS))):
-            logdet += r * rho[j+i+1] + lds
+            logdet += r * rho[j+self.ns_m] + lds
         return logdet
 
     def reml(self, rho):
-- 
2.43.0


From e226c6ea365ef32b7cb12ce7bb22f66c4b89eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 72/90] fix: LogbLink uses the offset it is given

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 8c72bdc..c13e5b8 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -22,7 +22,7 @@ from ..utilities.optimizer_utils import MemoizeGradHess
 class LogbLink(Link):
 
     def __init__(self, b=0.01):
-        self.b = 0.01
+        self.b = b
 
     def link(self, mu):
         return np.log(1.0 / mu - self.b)
-- 
2.43.0


From 197606b5701bdf98f41b59096ce49a52208fa71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 73/90] fix: effective degrees of freedom and frequentist
 covariance of GaussianAdditiveModel

---
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index c0fe27f..cc10b06 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -269,12 +269,12 @@ class GaussianAdditiveModel:
         Jb = self.grad_beta_rho(beta, lambda_)
         C = Jb.dot(Vp[:-1, :-1]).dot(Jb.T)
         Vc = Vb + C
-        Vf = Vb.dot(XtX*scale).dot(Vb) + C
+        Vf = Vb.dot(XtX/scale).dot(Vb) + C
         self.Slambda = Slambda
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
         self.beta, self.eta, self.dev = beta, eta, dev
-        self.edf = np.trace(np.linalg.inv(Vb*XtX/scale))
+        self.edf = np.trace(Vb.dot(XtX)/scale)
         
     def fit(self, opt_kws={}, confint=95):
         self.optimize_penalty(opt_kws=opt_kws)
-- 
2.43.0


From c400fd1e062d409abe56af915ce95707c623ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 74/90] fix: null directions of a penalty left out of its log
 determinant

---
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 pystatsm/pygam/smooth_setup.py            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index cc10b06..8944737 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -56,8 +56,8 @@ class GaussianAdditiveModel:
             S[i] = Si
             Sj.append(s['S'])
             ranks.append(np.linalg.matrix_rank(Si))
-            u = np.linalg.eigvals(s['S'])
-            ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+            u = np.linalg.eigvalsh(s['S'])[p_i-ranks[-1]:]
+            ldS.append(np.log(u).sum())
         self.X, self.Xp, self.y = np.concatenate(X, axis=1), Xp.values, y.values[:, 0]
         self.S, self.Sj, self.ranks, self.ldS = S, Sj, ranks, ldS
         self.f, self.smooths = family, smooths
diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index f152958..48cd28d 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -113,7 +113,7 @@ def get_smooth_matrices(Xp, smooths, n_smooth_terms, n_total_params):
         X.append(smooths[var]['X'])
         S[i] = Si
         ranks.append(np.linalg.matrix_rank(Si))
-        u = np.linalg.eigvals(s['S'])
-        ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+        u = np.linalg.eigvalsh(s['S'])[p_i-ranks[-1]:]
+        ldS.append(np.log(u).sum())
     return X, S, ranks, ldS
 
-- 
2.43.0


From dcf57e28fad76d7dabd038ad76fd2e14caf69bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 75/90] fix: smooth components of a GAM evaluated at a frame's
 values

---
 pystatsm/pygam/gam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index 39cf500..b61e498 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -524,7 +524,7 @@ class GAM:
         methods = {"cr":crspline_basis, "cc":ccspline_basis,"bs":bspline_basis}
         s = self.smooths[key]
         knots = s['knots']
-        x = np.linspace(knots.min(), knots.max(), 200) if data is None else data[key]
+        x = np.linspace(knots.min(), knots.max(), 200) if data is None else np.asarray(data[key])
         Xs = methods[s['kind']](x, knots, **s['fkws'])
         Xs, _ = absorb_constraints(s['q'], X=Xs)
         y = Xs.dot(beta[s['ix']])
-- 
2.43.0


From cdb342fb2984f0f65548cd580118179a8ad00811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 76/90] fix: GauLS.predict_component of a smooth by a factor

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index c13e5b8..d480efc 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -82,7 +82,7 @@ class PredictorTerm:
         self.theta = theta
         self.smooth_info = smooth_info
         self.link = link
-        self.component_varnames = list(self.smooth_info.keys())
+        self.component_varnames = list(self.smooths.keys())
         self.methods = {"cr":crspline_basis, "cc":ccspline_basis,"bs":bspline_basis}
 
 
-- 
2.43.0


From f8d70e0ee8321217ee8b8ca46fa64007ac77958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 77/90] fix: MixedMCMC draws everything from its generator

---
 pystatsm/pylmm/glmm_mcmc.py  | 18 ++++++-----
 pystatsm/utilities/random.py | 60 ++++++++++++++++++++++++++----------
 2 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index 622e0e3..58eb213 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -329,7 +329,7 @@ class MixedMCMC(LMM):
             sd = j*s
             lb = j*tau[i-1]
             ub = j*tau[i]
-            v[ix] = trnorm(mu, sd, lb, ub)
+            v[ix] = trnorm(mu, sd, lb, ub, self.rng)
         return v
 
 
@@ -337,7 +337,8 @@ class MixedMCMC(LMM):
         u_i = u[self.u_indices[i]]
         U_i = u_i.reshape(-1, self.wsinfo[i]['k'], order='C')
         Sg_i =  U_i.T.dot(U_i)
-        Gs = r_invwishart(self.wsinfo[i]['nu']+self.priors[i]['n'], Sg_i+self.priors[i]['V'])
+        Gs = r_invwishart(self.wsinfo[i]['nu']+self.priors[i]['n'], Sg_i+self.priors[i]['V'],
+                          rng=self.rng)
         theta[self.t_inds[i]] = vech(Gs)
         return theta
 
@@ -345,7 +346,8 @@ class MixedMCMC(LMM):
         resid = y - yhat
         sse = resid.T.dot(resid)
         nu = self.wsinfo['r']['nu']
-        ss = r_invgamma((nu + self.priors['R']['n'])/2, scale=(sse + self.priors['R']['V'])/2)
+        ss = r_invgamma((nu + self.priors['R']['n'])/2, scale=(sse + self.priors['R']['V'])/2,
+                        rng=self.rng)
         theta[-1] = ss
         return theta
 
@@ -367,9 +369,9 @@ class MixedMCMC(LMM):
         v[self.ix0] = log1p(-np.exp(v[self.ix0])) - v[self.ix0]
         s = np.sqrt(theta[-1])
         z[self.ix1] = trnorm(mu=pred[self.ix1], sd=s*self.jv1,
-                             lb=v[self.ix1], ub=200*self.jv1)
+                             lb=v[self.ix1], ub=200*self.jv1, rng=self.rng)
         z[self.ix0] = trnorm(mu=pred[self.ix0], sd=s*self.jv0,
-                             lb=-200*self.jv0, ub=v[self.ix0])
+                             lb=-200*self.jv0, ub=v[self.ix0], rng=self.rng)
         return z
 
 
@@ -387,7 +389,7 @@ class MixedMCMC(LMM):
         m = pred[self.y_ix[i+1]]
         ll += np.sum(np.log(1.0 - norm_cdf((t_prop[i]-m)/s)))
         ll -= np.sum(np.log(1.0 - norm_cdf((t[i]-m)/s)))
-        if ll>np.log(np.random.uniform(0, 1)):
+        if ll>np.log(self.rng.uniform(0, 1)):
             t_accept = True
             t = t_prop
         else:
@@ -454,7 +456,7 @@ class MixedMCMC(LMM):
         acceptances = np.zeros((n_samples))
         location = self.location.copy()
         pred =  self.W.dot(location)
-        z = sp.stats.norm(self.y, self.y.var()).rvs()
+        z = sp.stats.norm(self.y, self.y.var()).rvs(random_state=rng)
         theta = self.t_init.copy()
         progress_bar = tqdm.tqdm(range(n_samples), smoothing=0.01)
         wtrace, waccept = 1.0, 1.0
@@ -494,7 +496,7 @@ class MixedMCMC(LMM):
         n_smp = n_samples
         samples = np.zeros((n_smp, n_pr))
         location, pred = self.location.copy(), self.W.dot(self.location)
-        theta, z = self.t_init.copy(), sp.stats.norm(0, 1).rvs(n_ob)
+        theta, z = self.t_init.copy(), sp.stats.norm(0, 1).rvs(n_ob, random_state=rng)
         v = np.zeros_like(z).astype(float)
         progress_bar = tqdm.tqdm(range(n_smp), smoothing=0.01)
         progress_bar.set_description(f"Chain {chain+1}")
diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 88d6799..fa66059 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -79,6 +79,31 @@ def exact_rmvnorm(S, n=1000, mu=None, seed=None):
         X = X + mu
     return X
 
+# draws from the generator given, or from numba's own state
+@numba.jit(nopython=True)
+def _normal(rng):
+    if rng is None:
+        return np.random.normal(0.0, 1.0)
+    return rng.normal(0.0, 1.0)
+
+@numba.jit(nopython=True)
+def _exponential(scale, rng):
+    if rng is None:
+        return np.random.exponential(scale)
+    return rng.exponential(scale)
+
+@numba.jit(nopython=True)
+def _uniform(low, high, rng):
+    if rng is None:
+        return np.random.uniform(low, high)
+    return rng.uniform(low, high)
+
+@numba.jit(nopython=True)
+def _chisquare(df, rng):
+    if rng is None:
+        return np.random.chisquare(df)
+    return rng.chisquare(df)
+
 @numba.jit(nopython=True)
 def wishart(df, V):
     n = V.shape[0]
@@ -93,25 +118,26 @@ def wishart(df, V):
     return W
 
 @numba.jit(nopython=True)
-def invwishart(df, V):
+def invwishart(df, V, rng=None):
     n = V.shape[0]
     T = np.zeros((n, n))
     for i in range(n):
-        T[i, i] = np.sqrt(np.random.chisquare(df-(i+1)+1))
+        T[i, i] = np.sqrt(_chisquare(df-(i+1)+1, rng))
         for j in range(i):
-            T[i, j] = np.random.normal(0.0, 1.0)
+            T[i, j] = _normal(rng)
     L = np.linalg.cholesky(V)
     A = L.dot(T)
     W = A.dot(A.T)
     IW = np.linalg.inv(W)
     return IW
 
-def r_invwishart(df, V):
+def r_invwishart(df, V, rng=None):
     Vinv = np.linalg.inv(V)
-    return invwishart(df, Vinv)
+    return invwishart(df, Vinv, rng)
 
-def r_invgamma(df, scale):
-    return 1.0/np.random.gamma(df, scale=1/scale)
+def r_invgamma(df, scale, rng=None):
+    rng = np.random if rng is None else rng
+    return 1.0/rng.gamma(df, scale=1/scale)
 
 
 
@@ -124,11 +150,11 @@ def norm_cdf(x):
 
 #Adapted from MCMCglmm
 @numba.jit(nopython=True)
-def scalar_truncnorm(mu, sd, lb, ub):
+def scalar_truncnorm(mu, sd, lb, ub, rng=None):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(0.0, 1.0)
+            z = _normal(rng)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
@@ -136,15 +162,15 @@ def scalar_truncnorm(mu, sd, lb, ub):
                 tr = (mu - ub) / sd
             if tr < 0:
                 while sample==1:
-                    z = np.random.normal(0.0, 1.0)
+                    z = _normal(rng)
                     if z>tr:
                         sample = 0
             else:
                 alpha = (tr + np.sqrt((tr * tr) + 4.0)) / 2.0
                 while sample==1:
-                    z = np.random.exponential(scale=1/alpha) + tr
+                    z = _exponential(1/alpha, rng) + tr
                     pz = -((alpha - z) * (alpha - z) / 2.0)
-                    u = -np.random.exponential(scale=1.0)
+                    u = -_exponential(1.0, rng)
                     if (u<=pz):
                         sample = 0
     else:
@@ -155,12 +181,12 @@ def scalar_truncnorm(mu, sd, lb, ub):
 
         if tr>0.5:
             while sample==1:
-                z = np.random.normal(0.0, 1.0)
+                z = _normal(rng)
                 if (z>sl) and (z<su):
                     sample = 0
         else:
             while sample==1:
-                z = np.random.uniform(sl, su)
+                z = _uniform(sl, su, rng)
                 if (sl<=0.0) and (0.0<=su):
                     pz = -z*z / 2.0
                 else:
@@ -168,7 +194,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
                         pz = (su * su - z * z) / 2.0
                     else:
                         pz = (sl * sl - z * z) / 2.0
-                u = -np.random.exponential(scale=1.0)
+                u = -_exponential(1.0, rng)
                 if u<pz:
                     sample = 0
     if lb<-1e16:
@@ -177,11 +203,11 @@ def scalar_truncnorm(mu, sd, lb, ub):
         return z*sd+mu
 
 @numba.jit(nopython=True)
-def trnorm(mu, sd, lb, ub):
+def trnorm(mu, sd, lb, ub, rng=None):
     n = len(mu)
     z = np.zeros((n, ), dtype=numba.float64)
     for i in range(n):
-        z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i])
+        z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i], rng)
     return z
 
 def students_t(loc, scale, nu=1, size=None, rng=None):
-- 
2.43.0


From 4554d658d7968304bad61e68f94a9d29c0f404c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 78/90] fix: samples of a MixedMCMC can be aggregated

---
 pystatsm/pylmm/glmm_mcmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index 58eb213..bddc6f3 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -618,13 +618,13 @@ class MixedMCMC(LMM):
         agg_samples = {}
         for name, ix in self.vnames.items():
             x = self.samples[:, burnin:, ix]
-            x = x.reshape(np.product(x.shape[:-1]), x.shape[-1])
+            x = x.reshape(np.prod(x.shape[:-1]), x.shape[-1])
             agg_samples[name] = x
 
         if 'u' in self.secondary_samples.keys():
             u = self.secondary_samples["u"][:, burnin:]
-            u = u.reshape(np.product(u.shape[:-1]), u.shape[-1])
-        agg_samples['u'] = u
+            u = u.reshape(np.prod(u.shape[:-1]), u.shape[-1])
+            agg_samples['u'] = u
         return agg_samples
 
 
-- 
2.43.0


From 5100ccd355bdb983f78a9e415079ed137c9be127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 79/90] fix: FactorAnalysis.hessian_canonical returned the
 negative of the Hessian

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 079204d..0b58c54 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -444,7 +444,7 @@ class FactorAnalysis(object):
             b1 = (2 * u[i] - 1) * A
             b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
             B+= (b1 + b2) * A
-        H = -Psi_inv.dot(B).dot(Psi_inv)
+        H = Psi_inv.dot(B).dot(Psi_inv)
         return H
 
     def loadings_from_psi(self, psi):
-- 
2.43.0


From 150d4b6bfddd3f94455d5a7da469e5b22c86cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 80/90] fix: factor analysis fit statistics use the model's
 degrees of freedom and its likelihood

---
 pystatsm/pyfa/efa.py             | 2 +-
 pystatsm/pyfa/factor_analysis.py | 4 ++--
 pystatsm/pyfa/fit_measures.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index a472700..526a8e1 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -589,7 +589,7 @@ class FactorAnalysis(object):
         rni = ((chi2_null - df_null) - (chi2_full - df_full)) / (chi2_null - df_null)
         cfi = (np.maximum(chi2_null - df_null, 0) - np.maximum(chi2_full - df_full, 0))\
              /np.maximum(chi2_null - df_null, 0)
-        rmsea = np.sqrt(np.max(chi2_full - df_full, 0) / (df_null * (self.n_obs - 1)))
+        rmsea = np.sqrt(np.maximum(chi2_full - df_full, 0) / (df_full * (self.n_obs - 1)))
         gfi_ = gfi(Sigma, self.S)
         agfi_ = agfi(Sigma, self.S, df_full)
         srmr_ = srmr(Sigma, self.S, df_full)
diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 0b58c54..ff358f6 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -571,7 +571,7 @@ class FactorAnalysis(object):
 
         """
         t = (self.n_vars + 1.0) * self.n_vars / 2.0
-        k = len(self.theta)
+        k = len(self.theta) - self.n_facs * (self.n_facs - 1) // 2
         degfree = t  - k
         GFI = gfi(Sigma, self.S)
         AGFI = agfi(Sigma, self.S, degfree)
@@ -579,7 +579,7 @@ class FactorAnalysis(object):
         stdchi2 = (chi2 - degfree) /  np.sqrt(2 * degfree)
         RMSEA = np.sqrt(np.maximum(chi2 -degfree, 0)/(degfree*(self.n_obs-1)))
         SRMR = srmr(Sigma, self.S, degfree)
-        llval = -(self.n_obs-1)*self.loglike(self.theta)/2
+        llval = -(self.n_obs-1)*self.loglike_augmented(self.params)/2
         BIC = k * np.log(self.n_obs) -2 * llval
         AIC = 2 * k - 2*llval
         sumstats = dict(GFI=GFI, AGFI=AGFI, chi2=chi2, chi2_pvalue=chi2p,
diff --git a/pystatsm/pyfa/fit_measures.py b/pystatsm/pyfa/fit_measures.py
index 8bb11d7..582af9a 100644
--- a/pystatsm/pyfa/fit_measures.py
+++ b/pystatsm/pyfa/fit_measures.py
@@ -38,7 +38,7 @@ def lr_test(Sigma, S, df, n):
     Sigma_inv = np.linalg.pinv(Sigma)
     chi2 = (lndSigma + np.trace(Sigma_inv.dot(S)) - lndS - p) * n
     chi2 = np.maximum(chi2, 1e-12)
-    pval = sp.stats.chi2.sf(chi2, (p + 1)*p/2)
+    pval = sp.stats.chi2.sf(chi2, df)
     return chi2, pval
 
 def gfi(Sigma, S):
-- 
2.43.0


From 492e5d59d9a9bf09f9a80433ae700c52e5f5ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 81/90] fix: standard errors of an unrotated FactorAnalysis are
 taken at the canonical loadings

---
 pystatsm/pyfa/factor_analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index ff358f6..7ac4380 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -617,8 +617,11 @@ class FactorAnalysis(object):
             self.L = self._rotate.rotate(self.T)
             self.theta[self.lix] = vec(self.L)
         else:
-            self.L = self.A
-            self.T = np.eye(self.n_facs)
+            #canonical orientation, which the identifying constraints assume
+            _, T = np.linalg.eigh(self.A.T.dot(self.A / np.diag(self.Psi)[:, None]))
+            self.T = T[:, ::-1]
+            self.L = np.dot(self.A, self.T)
+            self.theta[self.lix] = vec(self.L)
         #self.L, self.T, self.theta = self._reorder_factors(self.L, self.T, self.theta)
         self.Phi = np.dot(self.T.T, self.T)
         self._make_augmented_params(self.L, self.Phi, self.Psi)
@@ -655,6 +658,7 @@ class FactorAnalysis(object):
         else:
             dCdL = self.constraint_derivs(self.theta)
             nl, nt, nc = self.nl, self.nl + self.nr, self.nc
+            dCdL[:, nl:] = dCdL[:, nl:] / np.diag(self.Psi) #H is in terms of Psi, not log Psi
             H = np.zeros((nt+nc, nt+nc))
             ixp = np.r_[np.arange(self.nl),
                        np.arange(self.nl+self.ns, self.nl+self.ns+self.nr)]
-- 
2.43.0


From 7defb844d865a27f271dfc88a524dbab0249610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 82/90] fix: EFA degrees of freedom account for the identifying
 constraints

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 526a8e1..beaceeb 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -107,7 +107,7 @@ class FactorAnalysis(object):
         ixr = np.arange(nl + ns, nl + ns + nr)
         self.ixa, self.ixl, self.ixs, self.ixr = ixa, ixl, ixs, ixr
         self.nl, self.ns, self.nr, self.nc, self.nt = nl, ns, nr, nc, nt
-        self.n_params = len(ixa) - nc
+        self.n_params = len(ixa) - 2 * nc #free parameters less identifying constraints
 
     def model_matrices_to_params(self, L, Phi, Psi):
         """
-- 
2.43.0


From a46b7afc410744875231b47a8b48957f25b6495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 83/90] fix: the Hessian of the concentrated factor likelihood
 does not rely on pinv finding the null space

---
 pystatsm/pyfa/efa.py             | 5 +++--
 pystatsm/pyfa/factor_analysis.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index beaceeb..9583e7a 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -230,11 +230,12 @@ class FactorAnalysis(object):
         W = s.T * S * s
         u, V = np.linalg.eigh(W)
         B = np.zeros((p, p))
-        Ip = np.eye(p)
         for i in range(q):
             A = np.outer(V[:, i], V[:, i])
             b1 = (2 * u[i] - 1) * A
-            b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
+            d = u[i] - u
+            d = np.divide(1.0, d, out=np.zeros(p), where=np.abs(d) > 1e-12)
+            b2 = 2 * u[i] * (u[i] - 1) * (V * d).dot(V.T) #pinv(u[i] * Ip - W)
             B+= (b1 + b2) * A
         H = Psi_inv.dot(B).dot(Psi_inv)
         return H
diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 7ac4380..58c73ec 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -438,11 +438,12 @@ class FactorAnalysis(object):
         W = s.T * S * s
         u, V = np.linalg.eigh(W)
         B = np.zeros((p, p))
-        Ip = np.eye(p)
         for i in range(q):
             A = np.outer(V[:, i], V[:, i])
             b1 = (2 * u[i] - 1) * A
-            b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
+            d = u[i] - u
+            d = np.divide(1.0, d, out=np.zeros(p), where=np.abs(d) > 1e-12)
+            b2 = 2 * u[i] * (u[i] - 1) * (V * d).dot(V.T) #pinv(u[i] * Ip - W)
             B+= (b1 + b2) * A
         H = Psi_inv.dot(B).dot(Psi_inv)
         return H
-- 
2.43.0


From 3649d69afe4ac70b128cdb1ac9d0764cbcb7a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 84/90] fix: elnet rechecks the coefficients it dropped before
 it stops

---
 pystatsm/pyglmnet/gaussian_eln.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 0fe274e..2b52210 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -70,6 +70,7 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
     f_old = msr + pen
     fvals = np.zeros((n_iters+1, 3))
     beta_hat = b
+    candidates = active.copy()
     for i in range(n_iters):
         active_vars = index[active]
         fvals[i] = msr, pen, f_old
@@ -86,11 +87,14 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
         pen = elnet_penalty(b, alpha, lambda_)
         f_new = msr + pen
         if (f_old - f_new)<dtol:
-            fvals[i+1] = msr, pen, f_new
-            break
-        else:
-            f_old = f_new
-            beta_hat = b
+            # a variable dropped along the way must be optimal at zero
+            violations = candidates & (~active) & (np.abs(X.T.dot(r)) > la)
+            if not np.any(violations):
+                fvals[i+1] = msr, pen, f_new
+                break
+            active[violations] = True
+        f_old = f_new
+        beta_hat = b
     return beta_hat, fvals, active, i
 
 
-- 
2.43.0


From a5864a558a41b382451f515d2f69e0cd32cdcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 85/90] fix: binom_elnet rechecks the coefficients it dropped
 before it stops

---
 pystatsm/pyglmnet/binom_eln2.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 9abcf6d..f3008f8 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -132,6 +132,7 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
         betas[0] = beta
     else:
         betas = None
+    candidates = active.copy()
     eta, mu, w = get_eta_mu(X, beta[1:], beta[0])
     weights = weights / np.sum(weights)
     r = (y - mu)
@@ -160,7 +161,12 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
             betas[i, 1:], betas[i, 0] = b, b0
         beta[1:], beta[0] = b, b0 
         fdiff = np.abs(fvals[i]-fvals[i-1]) / (np.abs(fvals[i]) + 0.1)
-        if fdiff < ftol:
+        # a variable dropped along the way must be optimal at zero
+        g = np.abs(X.T.dot(r)) / len(r)
+        violations = candidates & (~active) & (g > lam * alpha)
+        if fdiff < ftol and np.any(violations):
+            active[violations] = True
+        elif fdiff < ftol:
             fvals = fvals[:i+1]
             step_halves = step_halves[:i+1]
             if store_betas:
-- 
2.43.0


From 66b2afa3a73eec15429fe6413c7c8827142993b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 86/90] fix: binom_glmnet lets a dropped coefficient re-enter
 unless told otherwise

---
 pystatsm/pyglmnet/binomial_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 78666e7..8710601 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -271,7 +271,7 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         r = y - mu
         fvals[i] = -2.0*np.sum(y * np.log(mu) + np.log(muconj) * yconj)/n
         b_new, b0, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
-                                               acs, ix, n)
+                                               acs.copy(), ix, n)
         
         if np.max(xvd) < btol:
             break
-- 
2.43.0


From 46c9f7e16c560476bae8094021cc861f32008fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 87/90] fix: lars downdates the leading block of its factor
 when a variable leaves

---
 pystatsm/pyglmnet/lars.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/lars.py b/pystatsm/pyglmnet/lars.py
index 675f1e9..2d40480 100644
--- a/pystatsm/pyglmnet/lars.py
+++ b/pystatsm/pyglmnet/lars.py
@@ -46,8 +46,11 @@ def lars_add_var(cj_, j, G, L, C, active, s, ind):
 
 def lars_drop_var(L, betas, active, s, ind, drops, i):
     drop_ix, = np.where(drops)
-    for k in drop_ix:
-        L = chol_downdate(L, k)
+    m = len(active)
+    for k in drop_ix[::-1]:
+        # only the leading block of L holds a factor
+        L[:m, :m] = chol_downdate(L[:m, :m], k)
+        m -= 1
     active_ix = active[drop_ix]
     betas[i, active_ix] = 0.0
     active = active[~drops]
-- 
2.43.0


From f7b7aaab8944d579f2829030ce7fd52116768b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 88/90] fix: GLMEN.fit unpacks what its solver returns

---
 pystatsm/pyglmnet/glmen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen.py b/pystatsm/pyglmnet/glmen.py
index 70b90ca..c43b759 100644
--- a/pystatsm/pyglmnet/glmen.py
+++ b/pystatsm/pyglmnet/glmen.py
@@ -61,7 +61,10 @@ class GLMEN:
     def fit(self, lambda_, alpha=0.99, X=None, y=None, intercept=True, n_iters=1000, **kws):
         X = self.X if X is None else X
         y = self.y if y is None else y
-        beta, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
+        if self.family=="binomial":
+            beta, self.b0, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
+        else:
+            beta, fvals, active, _ = self._fit(X, y, lambda_, alpha, **kws)
         self.beta = beta 
         self.active = active
         self.fvals = fvals
-- 
2.43.0


From ca065a53e2c83a550b4191fce6bc7284e04e08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 89/90] fix: the screening rule of ElasticNetGLM accounts for
 the penalty ratio and spares non-zero coefficients

---
 pystatsm/pyglmnet/glmen2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 911233c..06c42c7 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -227,7 +227,7 @@ class ElasticNetGLM(object):
         eta = overflow_adjust(beta[0] + X.dot(beta[1:]), lower, upper)
         mu = self.family.inv_link(eta)
         g = np.abs(np.dot(X.T, wobs * (y - mu)))
-        active[g<(2.0 * lam - lam0)] = False
+        active[(g < self.alpha * (2.0 * lam - lam0)) & (beta[1:] == 0)] = False
         f_curr = self._obj_func_mu(mu, beta, lam, X, y, wobs)
         f_hist = [[f_curr, 0]]
         for i in range(n_iters):
-- 
2.43.0


From a383db0b7ca4f45ff2a8cbe4f522936c209de123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 90/90] fix: binom_glmnet iterates until its intercept settles
 too

---
 pystatsm/pyglmnet/binomial_eln.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 8710601..c07048a 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -270,10 +270,12 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         w = mu * muconj
         r = y - mu
         fvals[i] = -2.0*np.sum(y * np.log(mu) + np.log(muconj) * yconj)/n
-        b_new, b0, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
+        b_new, b0_new, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
                                                acs.copy(), ix, n)
-        
-        if np.max(xvd) < btol:
+        # the intercept has to settle as well
+        xvd0 = np.sum(w) / n * (b0_new - b0)**2
+        b0 = b0_new
+        if max(np.max(xvd), xvd0) < btol:
             break
         if i>0 and 0<(fvals[i-1]-fvals[i])<dtol:
             break
-- 
2.43.0

