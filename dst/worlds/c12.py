"""C12: histories of in-place sparse kernel calls over reused, guarded output buffers."""
import itertools, resource, warnings
import numpy as np
import scipy.sparse as sps
from ..core import World
from .. import faults

KERNELS = ["add", "add_c", "matmul", "matmul_c", "kron_ss", "kron_ss_in", "kron_ds", "kron_ds_in", "kron_sd", "kron_sd_in", "kron_dense_sparse",
           "id_kron", "id_kron_in", "tile", "tile_c", "repeat", "coo", "naive", "naive2", "dot", "trace", "bdsd", "index"]
GUARD = 6
CANARY = -7.25e77
ALLOC = ("add", "add_c", "matmul", "matmul_c")


class Guarded:
    """an array living inside a larger one whose borders must not change"""

    def __init__(self, n, dtype):
        dt = np.dtype(dtype)
        self.mark = np.array(-123456789 if dt.kind == "i" else CANARY).astype(dt)
        self.big = np.full(n + 2 * GUARD, self.mark, dtype=dt)
        self.a = self.big[GUARD:GUARD + n]

    def intact(self):
        return bool((self.big[:GUARD] == self.mark).all() and (self.big[-GUARD:] == self.mark).all())


def pattern(rg, n, m, d):
    P = rg.random((n, m)) < d
    if not P.any():
        P[rg.integers(n), rg.integers(m)] = True
    return P


def fill(rg, P, zeros, cplx=False):
    A = rg.normal(size=P.shape) * 10.0 ** rg.integers(-1, 3)
    if cplx:
        A = A + 1j * rg.normal(size=P.shape)
    if zeros:
        A = np.where(rg.random(P.shape) < 0.3, 0.0, A)
    return np.where(P, A, 0)


def csc(A, P, rg=None, cls=sps.csc_matrix):
    """csc matrix with exactly pattern P (explicit zeros kept); rows of each column shuffled when rg is given"""
    ip, ix, dx = [0], [], []
    for j in range(P.shape[1]):
        rows = np.nonzero(P[:, j])[0]
        if rg is not None:
            rows = rg.permutation(rows)
        ix.extend(rows.tolist())
        dx.extend(A[rows, j].tolist())
        ip.append(len(ix))
    return cls((np.array(dx, dtype=A.dtype if A.dtype.kind == "c" else float), np.array(ix, dtype=np.int32), np.array(ip, dtype=np.int32)), shape=P.shape)


class W(World):
    prop = "C12"
    technique = ("seeded simulation of kernel-call histories over a pool of reused output buffers holding stale content inside guard zones, with "
                 "interrupted calls and failing workspace allocations; compared with dense definitions")
    rule = ("a run draws sizes, patterns (empty rows and columns, unsorted, explicit zeros), 5-25 kernel calls on buffers kept from earlier calls "
            "or filled with garbage, and faults; non-trivial: three or more results compared")
    states_measure = "distinct (kernel, buffer history of that kernel, operand order, fault) tuples"
    real = ("pystatsm.utilities.python_wrappers and the compiled C kernels of the scratch build", "pystatsm.utilities.ordered_indices")
    stub = ("allocation failure is produced by lowering RLIMIT_AS around one kernel call whose workspace then cannot be mapped",)
    assumptions = ("operands hold at least one stored element (an empty array has no first element to point at: the wrappers raise IndexError)",
                   "index arrays are int32 and values double or complex double, as the compiled signatures require",
                   "a buffer passed to an in-place kernel has the pattern of its result, as produced by the non-in-place form")
    quick_runs, thorough_runs = 8000, 200000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        from pystatsm.utilities import python_wrappers, ordered_indices
        self.w, self.oi = python_wrappers, ordered_indices

    def gen(self, r, tier):
        names = [k for k in KERNELS if r.random() < 0.35] or [r.choice(KERNELS)]
        faulty = r.random() < 0.6
        ops = []
        for _ in range(r.randrange(4, 14 if tier == "quick" else 40)):
            k = r.choice(names)
            op = dict(op=k, s=r.randrange(1 << 20), buf=r.choice(["reuse", "reuse", "garbage", "new"]), zeros=r.random() < 0.3,
                      unsorted=r.random() < 0.4, form=r.randrange(4), al=r.choice([1.0, 1.0, -1.0, 0.0, 2.5]), be=r.choice([1.0, 1.0, -0.5, 0.0]))
            if faulty and r.random() < 0.2:
                if k in ALLOC and r.random() < 0.5:
                    op["fault"] = dict(kind="nomem", k=1)
                else:
                    op["fault"] = dict(kind=r.choice(faults.KINDS), k=r.randrange(1, 12))
            ops.append(op)
        return dict(config=dict(n=r.choice([1, 2, 3, 4, 6, 9]), m=r.choice([1, 2, 3, 4, 6, 9]), k=r.choice([1, 2, 3, 5]), seed=r.randrange(1 << 30),
                                d=r.choice([0.1, 0.3, 0.6, 1.0]), arr=r.random() < 0.5), ops=ops)

    def shrink_config(self, sc):
        c = sc["config"]
        for k in ("n", "m", "k"):
            if c[k] > 1:
                yield dict(sc, config=dict(c, **{k: c[k] - 1}))
        if c["arr"]:
            yield dict(sc, config=dict(c, arr=False))
        for i, op in enumerate(sc["ops"]):
            for k, v in (("zeros", False), ("unsorted", False), ("form", 0), ("al", 1.0), ("be", 1.0)):
                if op[k] != v:
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{k: v})] + sc["ops"][i + 1:])

    # ------------------------------------------------------------------ execution

    def execute(self, sc, ctx):
        c = sc["config"]
        self.c, self.ctx = c, ctx
        rg = np.random.default_rng(c["seed"])
        n, m, k = c["n"], c["m"], c["k"]
        self.PA, self.PA2 = pattern(rg, n, m, c["d"]), pattern(rg, n, m, c["d"])
        self.PB, self.PS = pattern(rg, m, k, c["d"]), pattern(rg, m, m, c["d"])
        self.extra = rg.random((n, m)) < 0.2
        self.bufs = {}
        hist = {}
        kept = []
        for i, op in enumerate(sc["ops"]):
            name = op["op"]
            ctx.count("op:" + name)
            rg = np.random.default_rng(op["s"])
            thunk, want, inputs, bufs, get = getattr(self, "k_" + name)(op, rg)
            snap = [(a, a.copy()) for x in inputs for a in ((x.data, x.indices, x.indptr) if sps.issparse(x) else (x,))]
            flt, lf, out, err = op.get("fault"), None, None, None
            outcome = "ok"
            try:
                if flt and flt["kind"] == "nomem":
                    if self.nomem(name, ctx):
                        outcome = "nomem"
                elif flt:
                    with faults.LineFault(self.root, flt["k"], flt["kind"]) as lf:
                        out = thunk()
                else:
                    out = thunk()
            except BaseException as e:
                err = e
                if not (faults.injected(e) or (lf is not None and lf.fired)):
                    ctx.fail("raised:" + name, "%r (op %s)" % (e, op))
                outcome = "fault"
            ctx.state(name, hist.get(name, "first"), op["buf"], op["unsorted"], flt["kind"] if flt else None)
            for a, a0 in snap:
                ctx.check(np.array_equal(a, a0), "input-mutated:" + name, "operand changed from %s to %s" % (a0, a))
            for g in bufs:
                ctx.check(g.intact(), "out-of-bounds:" + name, "elements next to the output buffer were written")
            for tag, a, a0 in kept:
                ctx.check(np.array_equal(a, a0), "result-overwritten:" + tag, "an earlier result changed when %s ran" % name)
            hist[name] = outcome
            if outcome != "ok":
                ctx.count("fault:" + flt["kind"])
                ctx.event(i, name, outcome)
                continue
            if flt and flt["kind"] == "nomem":
                continue
            res = get(out)
            ctx.check(np.shape(res) == np.shape(want), "shape:" + name, "%s expected %s" % (np.shape(res), np.shape(want)))
            err = np.max(np.abs(np.asarray(res) - want)) if np.size(want) else 0.0
            ctx.count("assertions")
            ctx.check(err <= 1e-11 * (1 + np.max(np.abs(want), initial=0)), "value:" + name,
                      "buffer %s, got %s want %s" % (op["buf"], np.asarray(res).tolist(), np.asarray(want).tolist()))
            if sps.issparse(out):
                if out.has_sorted_indices:
                    ok = all((np.diff(out.indices[out.indptr[j]:out.indptr[j + 1]]) >= 0).all() for j in range(out.shape[1]))
                    ctx.check(ok, "claims-sorted:" + name, "result says its indices are sorted and they are not: %s" % (out.indices,))
                if not bufs:
                    kept.append((name, out.data, out.data.copy()))
            elif isinstance(out, np.ndarray) and not bufs:
                kept.append((name, out, out.copy()))
            ctx.steps += 1
            ctx.event(i, name, np.abs(want).sum())

    def nomem(self, name, ctx):
        """the kernel's workspace cannot be allocated: it must raise MemoryError and leave its output alone"""
        cplx = name.endswith("_c")
        N = 24_000_000
        dt = complex if cplx else float
        A = sps.csc_matrix((np.ones(2, dtype=dt), np.array([0, N - 1], dtype=np.int32), np.array([0, 2], dtype=np.int32)), shape=(N, 1))
        B = sps.csc_matrix((np.full(1, 2.0, dtype=dt), np.zeros(1, dtype=np.int32), np.array([0, 1], dtype=np.int32)), shape=(1, 1))
        C = sps.csc_matrix((np.full(2, 9.0, dtype=dt), np.array([0, N - 1], dtype=np.int32), np.array([0, 2], dtype=np.int32)), shape=(N, 1))
        with open("/proc/self/statm") as f:
            vm = int(f.read().split()[0]) * resource.getpagesize()
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (vm + (8 << 20), hard))
        try:
            try:
                if name == "add":
                    self.w.cs_add_inplace(A, A, C)
                elif name == "add_c":
                    self.w.cs_add_inplace_complex(A, A, C)
                elif name == "matmul":
                    self.w.cs_matmul_inplace(A, B, C)
                else:
                    self.w.cs_matmul_inplace_complex(A, B, C)
            finally:
                resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        except MemoryError:
            ctx.check(np.array_equal(C.data, np.full(2, 9.0)) and C.indices.tolist() == [0, N - 1] and C.indptr.tolist() == [0, 2],
                      "failed-call-wrote:" + name, "output changed by a call that could not allocate")
            return True
        ctx.check(np.array_equal(C.data, np.full(2, 2.0)), "value:" + name, "after a failed allocation: %s" % C.data)
        return False

    # ------------------------------------------------------------------ buffers

    def cls(self):
        return sps.csc_array if self.c["arr"] else sps.csc_matrix

    def array(self, key, n, dtype, op, rg):
        """the persistent guarded array of this key, or a new one full of garbage"""
        key = key + (n,)
        g = self.bufs.get(key)
        if g is None or op["buf"] == "new":
            g = self.bufs[key] = Guarded(n, dtype)
            g.a[:] = rg.integers(-50, 50, size=n)
        elif op["buf"] == "garbage":
            g.a[:] = rg.integers(-50, 50, size=n)
            if np.dtype(dtype).kind != "i" and n:
                g.a[rg.integers(n)] = np.nan
        return g

    def matrix(self, key, shape, indices, indptr, op, rg, cplx=False):
        """the persistent sparse buffer of this key: guarded data, given pattern"""
        old = self.bufs.get(key)
        if old is None or op["buf"] == "new":
            g = Guarded(len(indices), complex if cplx else float)
            gi, gp = Guarded(len(indices), np.int32), Guarded(len(indptr), np.int32)
            gi.a[:], gp.a[:] = indices, indptr
            M = self.cls()((g.a, gi.a, gp.a), shape=shape, copy=False)
            M.data, M.indices, M.indptr = g.a, gi.a, gp.a
            old = self.bufs[key] = (M, g, gi, gp)
            g.a[:] = rg.normal(size=len(indices)) * 100
        M, g, gi, gp = old
        if op["buf"] == "garbage":
            g.a[:] = np.nan
        return M, [g, gi, gp]

    @staticmethod
    def dense(M):
        """what the stored arrays say, independent of scipy's flags"""
        D = np.zeros(M.shape, dtype=M.data.dtype)
        for j in range(M.shape[1]):
            for p in range(M.indptr[j], M.indptr[j + 1]):
                D[M.indices[p], j] += M.data[p]
        return D

    def triple(self, shape):
        return lambda t: self.dense(type("M", (), dict(data=t[0], indices=t[1], indptr=t[2], shape=shape)))

    def operand(self, rg, P, op, cplx=False, sort=False):
        A = fill(rg, P, op["zeros"], cplx)
        return A, csc(A, P, rg if op["unsorted"] and not sort else None, self.cls())

    # ------------------------------------------------------------------ kernels: (thunk, want, inputs, guarded buffers, reader)

    def k_add(self, op, rg, cplx=False):
        A, sA = self.operand(rg, self.PA, op, cplx)
        B, sB = self.operand(rg, self.PA2, op, cplx)
        P = self.PA | self.PA2 | self.extra
        S = csc(P.astype(float), P)
        C, gs = self.matrix(("add", cplx), P.shape, S.indices, S.indptr, op, rg, cplx)
        al, be = op["al"], op["be"]
        if cplx:
            al = al + 0.5j
            return (lambda: self.w.cs_add_inplace_complex(sA, sB, C, al, be + 0j)), al * A + be * B, [sA, sB], gs, self.dense
        if op["form"] == 0:
            return (lambda: self.w.cs_add_inplace(sA, sB, C)), A + B, [sA, sB], gs, self.dense
        return (lambda: self.w.cs_add_inplace(sA, sB, C, al, be)), al * A + be * B, [sA, sB], gs, self.dense

    def k_add_c(self, op, rg):
        return self.k_add(op, rg, True)

    def k_matmul(self, op, rg, cplx=False):
        A, sA = self.operand(rg, self.PA, op, cplx)
        B, sB = self.operand(rg, self.PB, op, cplx)
        P = (self.PA.astype(int) @ self.PB.astype(int)) > 0
        if not P.any():
            return self.k_add(op, rg, cplx)
        S = csc(P.astype(float), P)
        C, gs = self.matrix(("mm", cplx), P.shape, S.indices, S.indptr, op, rg, cplx)
        f = self.w.cs_matmul_inplace_complex if cplx else self.w.cs_matmul_inplace
        return (lambda: f(sA, sB, C)), A @ B, [sA, sB], gs, self.dense

    def k_matmul_c(self, op, rg):
        return self.k_matmul(op, rg, True)

    def into(self, key, op, rg, nnz, shape, call):
        """run a Kronecker form with its output forms: fresh, sparse buffer, tuple of arrays"""
        form = op["form"]
        if form == 0:
            return (lambda: call(None)), [], self.dense
        if form == 1:
            gs = [self.array(key + (t,), s, d, op, rg) for t, s, d in (("x", nnz, float), ("i", nnz, np.int32), ("p", shape[1] + 1, np.int32))]
            return (lambda: call((gs[0].a, gs[1].a, gs[2].a))), gs, self.triple(shape)
        # a sparse buffer of the right size with some other pattern's content
        ip = np.minimum(np.arange(shape[1] + 1) * shape[0], nnz).astype(np.int32)
        ip[-1] = nnz
        M, gs = self.matrix(key + ("m",), shape, (np.arange(nnz) % shape[0]).astype(np.int32), ip, op, rg)
        M.has_sorted_indices
        return (lambda: call(M)), gs, self.dense

    def k_kron_ss(self, op, rg):
        A, sA = self.operand(rg, self.PA, op)
        B, sB = self.operand(rg, self.PB, op)
        want = np.kron(A, B)
        th, gs, get = self.into(("ss",), op, rg, sA.nnz * sB.nnz, want.shape, lambda o: self.w.sparse_kron(sA, sB, o))
        return th, want, [sA, sB], gs, get

    def k_kron_ds(self, op, rg):
        A = np.asfortranarray(fill(rg, np.ones_like(self.PA), op["zeros"]))
        B, sB = self.operand(rg, self.PB, op)
        want = np.kron(A, B)
        th, gs, get = self.into(("ds",), op, rg, A.size * sB.nnz, want.shape, lambda o: self.w.ds_kron(A, sB, o))
        return th, want, [A, sB], gs, get

    def k_kron_dense_sparse(self, op, rg):
        A = np.array(fill(rg, np.ones_like(self.PA), op["zeros"]), order=rg.choice(["C", "F"]))
        B, sB = self.operand(rg, self.PB, op)
        want = np.kron(A, B)
        th, gs, get = self.into(("dss",), op, rg, A.size * sB.nnz, want.shape, lambda o: self.w.dense_sparse_kron(A, sB, o))
        return th, want, [A, sB], gs, get

    def k_kron_sd(self, op, rg):
        A, sA = self.operand(rg, self.PA, op)
        B = np.asfortranarray(fill(rg, np.ones_like(self.PB), op["zeros"]))
        want = np.kron(A, B)
        th, gs, get = self.into(("sd",), op, rg, sA.nnz * B.size, want.shape, lambda o: self.w.sparse_dense_kron(sA, B, o))
        return th, want, [sA, B], gs, get

    def inplace(self, key, ref, op, rg, call, want, inputs, raw):
        """ref: the fresh product of the same operands' patterns; only data is rewritten"""
        if raw and op["form"] == 1:
            g = self.array(key, ref.nnz, float, op, rg)
            get = lambda out: self.dense(type("M", (), dict(data=out, indices=ref.indices, indptr=ref.indptr, shape=ref.shape)))
            return (lambda: call(g.a)), want, inputs, [g], get
        M, gs = self.matrix(key + (bool(op["unsorted"]),), ref.shape, ref.indices, ref.indptr, op, rg)
        if op["unsorted"]:
            M.indices[:] = ref.indices
        return (lambda: call(M)), want, inputs, gs, lambda out: self.dense(M)

    def k_kron_ss_in(self, op, rg):
        op = dict(op, unsorted=False)
        A, sA = self.operand(rg, self.PA, op)
        B, sB = self.operand(rg, self.PB, op)
        return self.inplace(("ssi",), self.w.sparse_kron(sA, sB), op, rg, lambda C: self.w.sparse_kron_inplace(sA, sB, C), np.kron(A, B), [sA, sB], False)

    def k_kron_ds_in(self, op, rg):
        op = dict(op, unsorted=False)
        A = np.asfortranarray(fill(rg, np.ones_like(self.PA), op["zeros"]))
        B, sB = self.operand(rg, self.PB, op)
        return self.inplace(("dsi",), self.w.ds_kron(A, sB), op, rg, lambda C: self.w.ds_kron_inplace(A, sB, C), np.kron(A, B), [A, sB], True)

    def k_kron_sd_in(self, op, rg):
        op = dict(op, unsorted=False)
        A, sA = self.operand(rg, self.PA, op)
        B = np.asfortranarray(fill(rg, np.ones_like(self.PB), op["zeros"]))
        return self.inplace(("sdi",), self.w.sparse_dense_kron(sA, B), op, rg, lambda C: self.w.sparse_dense_kron_inplace(sA, B, C), np.kron(A, B), [sA, B], True)

    def k_id_kron(self, op, rg):
        B, sB = self.operand(rg, self.PB, op)
        m = 1 + op["form"]
        return (lambda: self.w.id_sp_kron(m, sB)), np.kron(np.eye(m), B), [sB], [], self.dense

    def k_id_kron_in(self, op, rg):
        op = dict(op, unsorted=False)
        B, sB = self.operand(rg, self.PB, op)
        m = 1 + op["form"] % 2
        ref = csc(np.kron(np.eye(m), B), np.kron(np.eye(m), self.PB) > 0)
        M, gs = self.matrix(("idk", m), ref.shape, ref.indices, ref.indptr, op, rg)
        return (lambda: self.w.id_sp_kron_inplace(m, sB, M)), np.kron(np.eye(m), B), [sB], gs, self.dense

    def k_tile(self, op, rg, cplx=False, rep=False):
        v = fill(rg, np.ones((1, self.c["n"]), bool), op["zeros"], cplx)[0].copy()
        reps = 1 + op["form"]
        want = np.repeat(v, reps) if rep else np.tile(v, reps)
        f = self.w.repeat_1d if rep else self.w.tile_1d_complex if cplx else self.w.tile_1d
        if op["buf"] == "new":
            return (lambda: f(v, reps)), want, [v], [], lambda o: o
        g = self.array(("tile", cplx, rep), len(want), complex if cplx else float, op, rg)
        return (lambda: f(v, reps, g.a)), want, [v], [g], lambda o: o

    def k_tile_c(self, op, rg):
        return self.k_tile(op, rg, True)

    def k_repeat(self, op, rg):
        return self.k_tile(op, rg, False, True)

    def k_coo(self, op, rg):
        n, m = self.PA.shape
        nz = int(rg.integers(1, 2 * n * m + 1))
        i, j = rg.integers(n, size=nz), rg.integers(m, size=nz)
        x = rg.normal(size=nz)
        if op["zeros"]:
            i, j = i.astype(np.int32), j.astype(np.int32)
        want = np.zeros((n, m))
        np.add.at(want, (i, j), x)
        if op["form"] % 2:
            return (lambda: self.w.coo_to_csc(i, j, x, (n, m), False)), want, [i, j, x], [], lambda t: self.triple(t[0])((t[4], t[3], t[2]))
        return (lambda: self.w.coo_to_csc(i, j, x, (n, m))), want, [i, j, x], [], self.dense

    def k_naive(self, op, rg, f=None):
        f = f or self.w.naive_matmul_inplace
        A = fill(rg, np.ones_like(self.PA), op["zeros"])
        B = fill(rg, np.ones_like(self.PB), op["zeros"])
        A, B = np.ascontiguousarray(A), np.ascontiguousarray(B)
        want = A @ B
        if op["buf"] == "new":
            return (lambda: f(A, B)), want, [A, B], [], lambda o: o
        g = self.array(("naive", f.__name__), want.size, float, op, rg)
        return (lambda: f(A, B, g.a.reshape(want.shape))), want, [A, B], [g], lambda o: o

    def k_naive2(self, op, rg):
        return self.k_naive(op, rg, self.w.naive_matmul_inplace2)

    def k_dot(self, op, rg):
        n = self.c["n"]
        a, sa = self.operand(rg, pattern(rg, n, 1, self.c["d"]), op)
        b, sb = self.operand(rg, pattern(rg, n, 1, self.c["d"]), op)
        c0 = op["al"]
        if op["form"] == 0:
            return (lambda: self.w.sparse_dot(sa, sb)), float((a * b).sum()), [sa, sb], [], lambda o: o
        return (lambda: self.w.sparse_dot(sa, sb, c0)), float((a * b).sum() + c0), [sa, sb], [], lambda o: o

    def k_trace(self, op, rg):
        B, sB = self.operand(rg, self.PA, op)
        C, sC = self.operand(rg, self.PS, op)
        want = float((C * (B.T @ B)).sum())
        if op["form"] == 0:
            return (lambda: self.w.sparse_pattern_trace(sB, sC)), want, [sB, sC], [], lambda o: o
        return (lambda: self.w.sparse_pattern_trace(sB, sC, op["al"])), want + op["al"], [sB, sC], [], lambda o: o

    def k_bdsd(self, op, rg):
        ng, nv = self.c["n"], min(self.c["k"], 3)
        P = pattern(rg, ng * nv, self.c["m"], self.c["d"])
        L = fill(rg, P, op["zeros"])
        T = csc(np.ascontiguousarray(L.T), np.ascontiguousarray(P.T), rg if op["unsorted"] else None)
        S = sps.csr_matrix((T.data, T.indices, T.indptr), shape=L.shape)
        want = sum(L[j * nv:(j + 1) * nv] @ L[j * nv:(j + 1) * nv].T for j in range(ng))
        if op["form"] == 0:
            return (lambda: self.w.block_diag_self_dot(S, ng, nv)), want, [S], [], lambda o: o
        if op["form"] == 1:
            g = self.array(("bdsd",), nv * nv, float, op, rg)
            return (lambda: self.w.block_diag_self_dot(S, ng, nv, g.a.reshape(nv, nv))), want, [S], [g], lambda o: g.a.reshape(nv, nv)
        if op["form"] == 2:
            g = self.array(("bdsdF",), nv * nv, float, op, rg)
            return (lambda: self.w.block_diag_self_dot(S, ng, nv, g.a.reshape(nv, nv, order="F"))), want, [S], [g], lambda o: g.a.reshape(nv, nv, order="F")
        g = self.array(("bdsdS",), 4 * nv * nv, float, op, rg)
        v = g.a.reshape(2 * nv, 2 * nv)[::2, ::2]
        return (lambda: self.w.block_diag_self_dot(S, ng, nv, v)), want, [S], [g], lambda o: v

    def k_index(self, op, rg):
        shape = tuple(int(x) for x in rg.integers(1, 5, size=int(rg.integers(1, 4))))
        allix = list(itertools.product(*[range(s) for s in shape]))
        asc = lambda t: all(a <= b for a, b in zip(t, t[1:]))
        desc = lambda t: all(a >= b for a, b in zip(t, t[1:]))
        strict = lambda t: len(set(t)) == len(t)
        f = op["form"]
        if f == 0:
            return (lambda: self.oi.ascending_indices(shape)), np.array(sorted(t for t in allix if asc(t))), [], [], np.array
        if f == 1:
            return (lambda: self.oi.descending_indices(shape)), np.array(sorted((t for t in allix if desc(t)), reverse=True)), [], [], np.array
        up, st, first = op["zeros"], op["unsorted"], f == 2
        want = [t for t in allix if (asc(t) if up else desc(t)) and (strict(t) or not st)]
        if not first:
            want.sort(key=lambda t: t[::-1])
        return (lambda: self.oi.generate_indices(shape, up, first, st)), np.array(want), [], [], np.array

    def nontrivial(self, sc, res):
        return res["steps"] >= 3


WORLD = W
