"""Fault injector: an exception surfaces at the k-th executed line of the code under test.

Asynchronous exceptions of CPython (KeyboardInterrupt) are delivered between bytecodes and a failing
allocation raises wherever an object is created, so 'before line k' is a place where either may
really surface.  The counter runs over lines executed in files under `root` only; lines inside the
simulator, numpy or scipy are never a fault point (their own failures surface at the calling line)."""
import sys


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


def linalg_error():
    import numpy as np
    class InjectedLinAlgError(np.linalg.LinAlgError):
        pass
    return InjectedLinAlgError


_EXC = {}


def exc_type(kind):
    if kind not in _EXC:
        _EXC[kind] = {"interrupt": lambda: InjectedInterrupt, "memory": lambda: InjectedMemoryError,
                      "linalg": linalg_error}[kind]()
    return _EXC[kind]


KINDS = ("interrupt", "memory", "linalg")


ATOMIC = set()           # code objects that run as one step in the shipped system (compiled kernels): no fault point inside


class LineFault:
    """with LineFault(root, k, kind) as f: ...   f.fired tells whether and where it hit."""

    def __init__(self, root, k, kind="interrupt", only=None):
        self.root, self.k, self.kind = root, int(k), kind
        self.n, self.fired, self.where = 0, False, None
        self.only = only

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if not self.fired and self.n == self.k:
                self.fired = True
                self.where = (frame.f_code.co_filename[len(self.root):], frame.f_code.co_name)
                raise exc_type(self.kind)("injected at line event %d" % self.k)
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code in ATOMIC:
            return None
        fn = frame.f_code.co_filename
        if fn.startswith(self.root) and (self.only is None or self.only in fn):
            return self._local
        return None

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, et, ev, tb):
        sys.settrace(self._old)
        return False


def injected(e):
    """True if exception e (or what it was raised from) came from the injector."""
    seen = 0
    while e is not None and seen < 20:
        if isinstance(e, tuple(_EXC.values()) or (InjectedInterrupt,)):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False
