"""C13: histories of refactorisations and queries on one Cholesky factor object."""
import warnings
import numpy as np
import scipy.sparse as sps
from ..core import World
from .. import faults

QUERIES = ["solve_A", "solve_L", "solve_Lt", "L", "D", "P", "apply_P", "apply_Pt", "slogdet", "inv", "compose"]


class W(World):
    prop = "C13"
    technique = ("seeded simulation of factorisation histories on one factor object (refactorisations that succeed, fail on "
                 "indefinite matrices or are interrupted, queries, representation switches), compared with a dense reference")
    rule = ("a run draws a pattern, a family of positive definite and indefinite matrices on it, how the factor is made (cholesky, "
            "cholesky_AAt, analyze; CHOLMOD or dense fallback; ordering, mode) and 4-20 calls; non-trivial: two or more answers compared")
    states_measure = "distinct (backend, constructor, previous call and outcome, call) tuples"
    real = ("pystatsm.utilities.linalg_operations factor classes and constructors", "CHOLMOD through sksparse")
    stub = ("'scikit-sparse missing' is simulated by switching the availability flag the module sets at import",)
    assumptions = ("refactorisation is exercised on factors created without a diagonal shift",)
    quick_runs, thorough_runs = 6000, 120000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        from pystatsm.utilities import linalg_operations as lo
        self.lo = lo
        f = lo.cholesky(sps.eye(3).tocsc())
        f.L(), f.D(), f.inv()

    def gen(self, r, tier):
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 25])
        make = r.choice(["cholesky", "cholesky", "analyze", "AAt"])
        beta = r.choice([0, 0, 0, 0.5, 1]) if make != "analyze" else 0
        nm = r.choice([1, 2, 3])
        ops = []
        faulty = r.random() < 0.75
        enabled = [q for q in QUERIES if r.random() < 0.7] or ["solve_A"]
        for _ in range(r.randrange(4, 14 if tier == "quick" else 30)):
            x = r.random()
            if x < 0.3 and not beta:
                op = dict(op="refactor", m=r.randrange(nm))
                if faulty and make != "AAt" and r.random() < 0.35:
                    op["bad"] = r.randrange(1 << 16)
            else:
                op = dict(op=r.choice(enabled), ldl=r.choice([True, False, None]), rhs=r.choice(["vec", "mat", "sparse", "fortran"]), s=r.randrange(1 << 16))
                if op["op"] == "compose":
                    op["then"] = r.random() < 0.5
            if faulty and r.random() < 0.12:
                op["fault"] = dict(kind=r.choice(faults.KINDS), k=r.randrange(1, 8))
            ops.append(op)
        return dict(config=dict(n=n, density=r.choice([0.0, 0.1, 0.3, 0.7, 1.0]), make=make, beta=beta, nm=nm,
                                seed=r.randrange(1 << 30), dense=r.random() < 0.3, fmt=r.choice(["csc", "csc", "csr", "coo", "csc_array"]),
                                order=r.choice(["default", "default", "best", "natural", "amd"]),
                                mode=r.choice(["auto", "auto", "simplicial", "supernodal"]),
                                zeros=r.random() < 0.3, reuse=r.random() < 0.4, arrow=r.random() < 0.3), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        for k, v in (("zeros", False), ("reuse", False), ("mode", "auto"), ("order", "default"), ("fmt", "csc"), ("nm", 1), ("arrow", False)):
            if c[k] != v:
                yield dict(sc, config=dict(c, **{k: v}))
        if c["n"] > 2:
            yield dict(sc, config=dict(c, n=c["n"] - 1))

    def mats(self, c):
        rg = np.random.default_rng(c["seed"])
        n = c["n"]
        if c["make"] == "AAt":
            k = n + 3
            pat = (rg.random((n, k)) < max(c["density"], 0.1)) | (np.eye(n, k) > 0)
            out = []
            for _ in range(c["nm"]):
                B = np.where(pat, rg.normal(size=(n, k)), 0.0)
                B[np.arange(n), np.arange(n)] = 2.0 + rg.random(n) * 2 + np.abs(B).sum(1)
                out.append(B)
            return pat, out
        pat = rg.random((n, n)) < c["density"]
        if c["arrow"]:
            pat[0, :] = True
        pat = pat | pat.T | (np.eye(n) > 0)
        out = []
        for _ in range(c["nm"]):
            A = np.where(pat, rg.normal(size=(n, n)), 0.0)
            A = np.triu(A, 1)
            if c["zeros"]:
                A[rg.random((n, n)) < 0.3] = 0.0
            A = A + A.T
            A[np.diag_indices(n)] = np.abs(A).sum(1) + 0.2 + rg.random(n) * 10 ** rg.uniform(-1, 1)
            out.append(A)
        return pat, out

    def sparse(self, A, pat, fmt):
        i, j = np.nonzero(pat.T)
        i, j = j, i                       # column by column
        M = sps.csc_matrix(sps.coo_matrix((np.ones(len(i)), (i, j)), shape=A.shape))
        M.sort_indices()
        cols = np.repeat(np.arange(A.shape[1]), np.diff(M.indptr))
        M.data = A[M.indices, cols].astype(float)
        if fmt == "csr":
            return M.tocsr()
        if fmt == "coo":
            return M.tocoo()
        if fmt == "csc_array":
            return sps.csc_array(M)
        return M

    def execute(self, sc, ctx):
        c, lo = sc["config"], self.lo
        lo._SKSPARSE_AVAILABLE = not c["dense"]
        pat, mats = self.mats(c)
        n = c["n"]
        aat = c["make"] == "AAt"
        full = lambda A: (A @ A.T if aat else A) + c["beta"] * np.eye(n)
        A0 = self.sparse(mats[0], pat, c["fmt"])
        buf = self.sparse(mats[0], pat, "csc")
        kw = dict(ordering_method=c["order"])
        if c["mode"] != "auto":
            kw["mode"] = c["mode"]
        if c["make"] == "cholesky":
            f, cur = lo.cholesky(A0, beta=c["beta"], **kw), full(mats[0])
        elif aat:
            f, cur = lo.cholesky_AAt(A0, beta=c["beta"], **kw), full(mats[0])
        else:
            f, cur = lo.analyze(A0, **kw), None
        dirty = cur is None          # the last (re)factorisation did not succeed
        prev = ("make", "ok")
        kept = []
        for i, op in enumerate(sc["ops"]):
            name = op["op"]
            flt = op.get("fault")
            outcome, out, err = "ok", None, None
            ctx.count("op:" + name)
            if name == "refactor":
                if c["beta"]:
                    continue
                A = mats[op["m"] % len(mats)]
                if "bad" in op:
                    A = A.copy()
                    d = op["bad"] % n
                    A[d, d] = -1.0 - A[d, d]
                S = self.sparse(A, pat, c["fmt"])
                if c["reuse"]:
                    buf.data[:] = self.sparse(A, pat, "csc").data
                    S = buf
                s0 = S.copy()
                thunk = lambda: f.cholesky_inplace(S)
            else:
                b = self.rhs(op, n)
                if c["dense"] and name == "compose" and cur is None:
                    continue
                thunk = lambda: self.query(f, op, b)
                b0 = b.copy()
            lf = None
            try:
                if flt:
                    with faults.LineFault(self.root, flt["k"], flt["kind"]) as lf:
                        out = thunk()
                else:
                    out = thunk()
            except BaseException as e:
                err = e
                outcome = "fault" if faults.injected(e) or (lf is not None and lf.fired) else "raised"
            ctx.state(c["dense"], c["make"], prev[0], prev[1], name, op.get("ldl"))
            prev = (name, outcome)
            if outcome == "fault":
                ctx.count("fault:" + flt["kind"])
                ctx.event(i, name, "fault")
                if name == "refactor":
                    # it may or may not have taken effect: either matrix may answer from now on
                    dirty = True
                    maybe = None if "bad" in op else full(A)
                    cur = self.after_interrupted(f, cur, maybe, n)
                continue
            if name == "refactor":
                ctx.check((abs(S - s0)).sum() == 0 if hasattr(abs(S - s0), "sum") else True, "input-mutated", "refactorisation changed its matrix")
                if outcome == "raised":
                    ctx.check("bad" in op, "refactor-raised", repr(err))
                    ctx.count("fault:indefinite-rejected")
                    dirty = True
                    ctx.event(i, "refactor rejected")
                    continue
                ctx.check("bad" not in op, "indefinite-accepted", "refactorisation of an indefinite matrix returned")
                cur, dirty = full(A), False
                ctx.event(i, "refactor", op["m"])
                continue
            if isinstance(b, np.ndarray):
                ctx.check(np.array_equal(b, b0), "input-mutated", "%s changed its right-hand side" % name)
            if outcome == "raised":
                ctx.check(dirty, "query-raised", "%s raised %r after a successful factorisation" % (name, err))
                ctx.event(i, name, "refused")
                continue
            if name == "P":
                ctx.check(sorted(np.asarray(out).tolist()) == list(range(n)), "value:P", "not a permutation")
                continue
            if name in ("apply_P", "apply_Pt"):
                P = np.asarray(f.P())
                want = (b[P] if name == "apply_P" else b[np.argsort(P)])
                ctx.close(self.den(out), self.den(want), "value:" + name, rtol=0, atol=0)
                continue
            if name == "slogdet" and out[1] is None:
                ctx.check(dirty, "query-raised", "no determinant after a successful factorisation")
                continue
            if isinstance(cur, tuple):
                continue
            ctx.check(cur is not None, "answer-without-factor", "%s answered before any factorisation" % name)
            self.compare(ctx, f, op, b, out, cur)
            ctx.steps += 1
            d = self.den(out) if name != "slogdet" else None
            if isinstance(out, np.ndarray) or sps.issparse(out):
                kept.append((name, out, self.den(out).copy()))
            ctx.event(i, name, d if d is not None else out[1])
        for name, a, a0 in kept:
            ctx.check(np.array_equal(self.den(a), a0), "result-overwritten", name)

    def after_interrupted(self, f, cur, maybe, n):
        """Which matrix the factor answers for after an interrupted refactorisation (unknown: not compared)."""
        try:
            got = self.den(f.solve_A(np.eye(n)))
        except Exception:
            return cur
        for cand in (cur, maybe):
            if cand is not None and not isinstance(cand, tuple) and np.allclose(got @ cand, np.eye(n), atol=1e-6):
                return cand
        return cur if cur is not None else (0,)

    def rhs(self, op, n):
        rg = np.random.default_rng(op["s"])
        if op["rhs"] == "vec":
            return rg.normal(size=n)
        b = rg.normal(size=(n, 3))
        if op["rhs"] == "fortran":
            return np.asfortranarray(b)
        if op["rhs"] == "sparse":
            return sps.csc_matrix(np.where(rg.random((n, 3)) < 0.5, b, 0))
        return b

    def query(self, f, op, b):
        name = op["op"]
        if name in ("solve_A", "apply_P", "apply_Pt"):
            return getattr(f, name)(b)
        if name in ("solve_L", "solve_Lt"):
            return getattr(f, name)(b) if op["ldl"] is None else getattr(f, name)(b, op["ldl"])
        if name == "compose":
            y = f.solve_L(f.apply_P(b), False)
            return f.apply_Pt(f.solve_Lt(y, False))
        return getattr(f, name)()

    @staticmethod
    def den(x):
        return x.toarray() if sps.issparse(x) else np.asarray(x)

    def compare(self, ctx, f, op, b, out, cur):
        name = op["op"]
        P = np.asarray(f.P())
        n = len(P)
        Lr = np.linalg.cholesky(cur[np.ix_(P, P)])
        d = np.diag(Lr)
        B = self.den(b)
        tri = Lr if op["ldl"] is False else Lr / d
        if name in ("solve_A", "compose"):
            want = np.linalg.solve(cur, B)
        elif name == "solve_L":
            want = np.linalg.solve(tri, B)
        elif name == "solve_Lt":
            want = np.linalg.solve(tri.T, B)
        elif name == "L":
            want = Lr
        elif name == "D":
            want = d ** 2
        elif name == "inv":
            want = np.linalg.inv(cur)
        else:
            ctx.check(float(np.real(out[0])) == 1.0, "value:slogdet", "sign %s" % (out[0],))
            ctx.close(float(np.real(out[1])), 2 * np.log(d).sum(), "value:slogdet", rtol=1e-9, atol=1e-9 * n)
            return
        ctx.close(self.den(out), want, "value:" + name, rtol=1e-8, atol=1e-10)

    def nontrivial(self, sc, res):
        return res["steps"] >= 2


WORLD = W
