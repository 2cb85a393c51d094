"""Numba kernels run as the Python source they are compiled from, with the iteration order of every parallel
loop decided by the simulator."""
import types
import numpy as np
from . import faults


class Sched:
    """the order in which the iterations of a parallel loop are run: seq, reverse, random, blocks or
    round-robin over t threads"""

    def __init__(self, seed=0, kind="seq", threads=4):
        self.g = np.random.Generator(np.random.PCG64(seed))
        self.kind, self.t = kind, threads
        self.loops = 0

    def __call__(self, *a):
        its = list(range(*[int(x) for x in a]))
        self.loops += 1
        k, n = self.kind, len(its)
        if k == "reverse":
            its.reverse()
        elif k == "random":
            its = [its[i] for i in self.g.permutation(n)]
        elif k == "blocks":
            cut = np.array_split(np.arange(n), self.t)
            its = [its[i] for b in self.g.permutation(len(cut)) for i in cut[b]]
        elif k == "robin":
            its = [its[i] for s in range(self.t) for i in range(s, n, self.t)]
        return its


class FakeNumba(types.SimpleNamespace):
    pass


def interpret(*modules):
    """replace every numba dispatcher in the modules by its Python source; returns the object whose .prange the
    parallel loops call"""
    import numba
    fake = FakeNumba(**{k: getattr(numba, k) for k in ("jit", "njit", "types") if hasattr(numba, k)})
    for k in ("float64", "float32", "int64", "int32", "complex128", "boolean"):
        setattr(fake, k, getattr(np, k if k != "boolean" else "bool_"))
    fake.sched = Sched()
    fake.prange = lambda *a: fake.sched(*a)
    for m in modules:
        for k, v in list(vars(m).items()):
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("pystatsm"):
                for kk, vv in list(vars(v).items()):
                    d = getattr(vv, "__func__", vv)
                    if hasattr(d, "py_func"):
                        faults.ATOMIC.add(d.py_func.__code__)
                        setattr(v, kk, staticmethod(d.py_func))
            elif hasattr(v, "py_func"):
                faults.ATOMIC.add(v.py_func.__code__)
                setattr(m, k, v.py_func)
        if "numba" in vars(m):
            m.numba = fake
        if "prange" in vars(m):
            m.prange = fake.prange
    return fake
