"""Caller threads under a deterministic scheduler: real threads of which exactly one runs at any time; the baton moves
only before a line of the library, where and to whom being decided by the simulator."""
import contextlib
import sys
import threading
import numpy as np
from . import faults, rngs


class Stuck(Exception):
    pass


class Caller:
    """one caller: what it has run, and where the pending fault of its current call is"""

    def __init__(self, i, body):
        self.i, self.body = i, body
        self.sem = threading.Semaphore(0)
        self.done = False
        self.lines = 0
        self.k = self.exc = self.fired = None
        self.error = None

    def arm(self, k=0, kind=None):
        self.lines, self.k, self.exc, self.fired = 0, k, kind, None


class Sched:
    """body(caller) is a generator, one step per call; mean: average number of library lines between switches (0: the
    callers take turns in one thread)"""

    def __init__(self, root, seed, mean, trace=True, on_switch=None):
        self.root, self.mean, self.trace = root, mean, trace
        self.g = np.random.Generator(np.random.PCG64(seed))
        self.callers = []
        self.switches = 0
        self.on_switch = on_switch
        self.left = self.gap()

    def gap(self):
        return int(self.g.geometric(1.0 / self.mean)) if self.mean else 1 << 60

    def add(self, body):
        self.callers.append(Caller(len(self.callers), body))

    # -------------------------------------------------------------- moving the baton
    def move(self, me, where):
        """the baton passes to a drawn caller that is not finished (possibly me)"""
        live = [c for c in self.callers if not c.done]
        if not live:
            self.over.release()
            return
        nxt = live[int(self.g.integers(len(live)))]
        if nxt is me:
            return
        self.switches += 1
        if self.on_switch:
            self.on_switch(me.i, nxt.i, where)
        nxt.sem.release()
        if not me.done and not me.sem.acquire(timeout=100):
            raise Stuck("caller %d waited too long" % me.i)

    def tracer(self, me):
        root, n = self.root, len(self.root)

        def local(frame, event, arg):
            if event == "line":
                me.lines += 1
                self.left -= 1
                if self.left <= 0:
                    self.left = self.gap()
                    self.move(me, (frame.f_code.co_filename[n:], frame.f_code.co_name, frame.f_lineno))
                if me.k and me.lines == me.k and me.fired is None:
                    me.fired = (frame.f_code.co_filename[n:], frame.f_code.co_name, frame.f_lineno)
                    raise faults.exc_type(me.exc)("injected at line event %d" % me.k)
            return local

        def glob(frame, event, arg):
            c = frame.f_code
            if c in faults.ATOMIC or c.co_name == "<module>" or not c.co_filename.startswith(root):
                return None
            return local
        return glob

    def turns(self):
        live = {c.i: c.body(c) for c in self.callers}
        last = None
        while live:
            i = sorted(live)[int(self.g.integers(len(live)))]
            if last is not None and last != i:
                self.switches += 1
                if self.on_switch:
                    self.on_switch(last, i, ("", "between calls", 0))
            last = i
            if self.trace:
                sys.settrace(self.tracer(self.callers[i]))
            try:
                next(live[i])
            except StopIteration:
                del live[i]
            finally:
                sys.settrace(None)

    def run(self):
        if not self.mean:
            return self.turns()
        self.over = threading.Semaphore(0)

        def main(c):
            c.sem.acquire()
            try:
                if self.trace:
                    sys.settrace(self.tracer(c))
                for _ in c.body(c):
                    self.move(c, ("", "between calls", 0))
            except BaseException as e:
                c.error = e
            finally:
                sys.settrace(None)
                c.done = True
                self.move(c, ("", "finished", 0))
        ts = [threading.Thread(target=main, args=(c,), daemon=True) for c in self.callers]
        for t in ts:
            t.start()
        self.callers[int(self.g.integers(len(self.callers)))].sem.release()
        if not self.over.acquire(timeout=110):
            raise Stuck("the callers did not finish")
        for c in self.callers:
            if c.error is not None:
                raise c.error


@contextlib.contextmanager
def dealt_per_thread():
    """numpy's global generator and unseeded default_rng() answer each thread from its own dealer; yields the function
    that gives the calling thread a new one"""
    tls = threading.local()
    nr = np.random
    names = ("choice", "permutation", "shuffle", "randint", "default_rng", "normal", "uniform", "seed", "randn", "rand")
    old = {k: getattr(nr, k) for k in names}

    def renew(seed):
        tls.d = rngs.Dealer(seed)
        tls.sim = None

    def default_rng(seed=None):
        if seed is not None or not hasattr(tls, "d"):
            return seed if isinstance(seed, np.random.Generator) else old["default_rng"](seed)
        if tls.sim is None:
            tls.sim = rngs.SimGenerator(tls.d)
        return tls.sim
    nr.choice = lambda *a, **k: tls.d.choice(*a, **k)
    nr.permutation = lambda *a, **k: tls.d.permutation(*a, **k)
    nr.shuffle = lambda *a, **k: tls.d.shuffle(*a, **k)
    nr.randint = lambda low, high=None, size=None, dtype=int: tls.d.integers(low, high, size, dtype)
    nr.normal = lambda *a, **k: tls.d.g.normal(*a, **k)
    nr.uniform = lambda *a, **k: tls.d.g.uniform(*a, **k)
    nr.randn = lambda *s: tls.d.g.standard_normal(s)
    nr.rand = lambda *s: tls.d.g.uniform(size=s)
    nr.seed = lambda s=None: renew(int(s or 0))
    nr.default_rng = default_rng
    try:
        yield renew
    finally:
        for k, v in old.items():
            setattr(nr, k, v)
