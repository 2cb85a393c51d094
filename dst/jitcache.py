"""Compiled numba kernels shared between processes: every decorator of the code under test gets cache=True, the cache
lives beside the scratch build, worker processes compile different models at the same time and the parent loads the
results.  What is compiled is unchanged."""
import os


def enable(root):
    d = os.path.join(root, ".numba_cache")
    os.makedirs(d, exist_ok=True)
    os.environ["NUMBA_CACHE_DIR"] = d
    import numba
    from numba.core import decorators, config
    config.CACHE_DIR = d
    if getattr(numba, "_dst_cached", False):
        return
    numba._dst_cached = True
    # numba picks the name of a cache entry without a lock: two processes saving two signatures of one kernel at the same
    # time would store one under the other's name
    from numba.core import caching
    save = caching.IndexDataCacheFile.save

    def locked(self, key, data):
        import fcntl
        with open(os.path.join(d, ".lock"), "w") as fh:
            fcntl.flock(fh, fcntl.LOCK_EX)
            save(self, key, data)
    caching.IndexDataCacheFile.save = locked

    def wrap(orig):
        def deco(*a, **k):
            if not k.get("parallel"):
                k.setdefault("cache", True)
            return orig(*a, **k)
        deco.__name__ = orig.__name__
        return deco
    for name in ("jit", "njit", "vectorize", "guvectorize"):
        setattr(numba, name, wrap(getattr(numba, name)))


def parallel_warm(jobs, n=8, timeout=240):
    """run the callables in forked children, n at a time, so that what they compile is in the cache"""
    import time
    live, todo, t0 = {}, list(jobs), time.time()
    while todo or live:
        while todo and len(live) < n:
            f = todo.pop(0)
            pid = os.fork()
            if pid == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    f()
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            live[pid] = f
        pid, _ = os.waitpid(-1, 0)
        live.pop(pid, None)
