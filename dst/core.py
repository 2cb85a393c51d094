"""Deterministic simulation core.

One integer (VERIF_SEED) and the property id decide everything: run i of property P is the scenario
P.gen(Random(hash(seed, P, i))); a scenario is plain JSON (configuration, operations, faults) and
executing it is a pure function of the scenario and the code.  Each run executes in a forked child of a
warmed-up parent, so no run sees what another left behind and a crash of the process is itself an
observation.  Violations are minimised (operations dropped, faults dropped, configuration shrunk while
the violation class persists) and written as a replay file."""
import hashlib, json, os, pickle, random, resource, select, signal, struct, sys, time, traceback

CPU_CAP = 150          # seconds of CPU one run may use before it counts as not making progress


class Violation(Exception):
    def __init__(self, cls, detail=""):
        super().__init__(cls, detail)
        self.cls, self.detail = cls, detail


class HarnessError(Exception):
    pass


def rng_for(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def fmt(x):
    import numpy as np
    if isinstance(x, (bool, int, str)) or x is None:
        return str(x)
    if isinstance(x, (float, np.floating)):
        return "%.6g" % (float(x) + 0.0)
    if isinstance(x, np.ndarray):
        return "[" + ",".join(fmt(v) for v in x.reshape(-1)[:40].tolist()) + "]" + str(x.shape)
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(fmt(v) for v in x) + ")"
    return str(x)


class Ctx:
    """What a run reports: events (digest), counters, probes, violation."""

    def __init__(self, root, record=False):
        self.root = os.path.join(root, "pystatsm") + os.sep if root else "/nonexistent"
        self.h = hashlib.sha256()
        self.n_events = 0
        self.counts = {}
        self.states = set()
        self.log = [] if record else None
        self.steps = 0

    def event(self, *parts):
        s = " ".join(fmt(p) for p in parts)
        self.h.update(s.encode() + b"\n")
        self.n_events += 1
        if self.log is not None:
            self.log.append(s)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def state(self, *parts):
        """a distinct situation reached (for the reach measure)"""
        self.states.add("|".join(fmt(p) for p in parts))

    def fail(self, cls, detail=""):
        raise Violation(cls, str(detail)[:1500])

    def check(self, cond, cls, detail=""):
        self.count("assertions")
        if not cond:
            self.fail(cls, detail() if callable(detail) else detail)

    def close(self, got, want, cls, rtol=1e-6, atol=1e-8, what=""):
        """numeric agreement in the max norm: |got-want| <= atol + rtol*max|want|"""
        import numpy as np
        self.count("assertions")
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self.fail(cls, "%s not numeric: %r (%s)" % (what, got, e))
        if g.shape != w.shape:
            if g.size == w.size and g.squeeze().shape == w.squeeze().shape:
                g, w = g.squeeze(), w.squeeze()
            else:
                self.fail(cls, "%s shape %s, expected %s" % (what, g.shape, w.shape))
        if g.size == 0:
            return
        if not np.array_equal(np.isfinite(g), np.isfinite(w)):
            self.fail(cls, "%s finite pattern differs: got %s want %s" % (what, fmt(g), fmt(w)))
        fin = np.isfinite(w)
        if not fin.any():
            return
        err = np.max(np.abs(g[fin] - w[fin]))
        tol = atol + rtol * np.max(np.abs(w[fin]))
        if not err <= tol:
            self.fail(cls, "%s differs by %.3g (tolerance %.3g): got %s want %s" % (what, err, tol, fmt(g), fmt(w)))


class World:
    """One simulated system and its oracle."""
    prop = None
    level = "exploration"
    technique = "deterministic simulation with fault injection"
    rule = ""
    real, stub = (), ()
    assumptions = ()
    quick_runs, thorough_runs = 400, 20000
    cpu_cap = CPU_CAP

    def warm(self):
        """imports and compilation done once in the parent"""

    def gen(self, r, tier):
        raise NotImplementedError

    def execute(self, sc, ctx):
        raise NotImplementedError

    def shrink_config(self, sc):
        """yield simpler scenarios (besides dropping operations and faults)"""
        return ()

    def nontrivial(self, sc, res):
        return res["steps"] > 0

    def known(self, sc, res):
        """name of the listed known finding this violation is, or None"""
        return None


# ------------------------------------------------------------------ one run in a forked child

def run_inline(world, sc, root, record=False):
    ctx = Ctx(root, record)
    out = {"violation": None, "harness": None}
    t0 = time.perf_counter()
    try:
        world.execute(sc, ctx)
    except Violation as v:
        out["violation"] = (v.cls, v.detail)
        ctx.event("VIOLATION", v.cls)
    except (HarnessError, MemoryError, OSError, KeyboardInterrupt, SystemExit) as e:
        out["harness"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    except BaseException as e:
        # every call is expected to return something the oracle can read; the machinery itself never
        # raises on the unchanged tree, so an answer that cannot be processed is a wrong answer
        cls = "unusable-answer:" + type(e).__name__
        out["violation"] = (cls, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
        ctx.event("VIOLATION", cls)
    out.update(digest=ctx.h.hexdigest(), events=ctx.n_events, counts=ctx.counts, states=sorted(ctx.states),
               steps=ctx.steps, secs=time.perf_counter() - t0, log=ctx.log)
    return out


def _child(world, sc, root, wfd, record):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        resource.setrlimit(resource.RLIMIT_CPU, (world.cpu_cap, world.cpu_cap + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        out = run_inline(world, sc, root, record)
        data = pickle.dumps(out)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    finally:
        os._exit(0)


class Job:
    __slots__ = ("tag", "pid", "fd", "buf", "t0")


def run_many(world, scenarios, root, workers=8, record=False, wall_cap=None, stop_on_violation=None):
    """Yield (tag, scenario, result) for (tag, scenario) pairs, in completion order."""
    it = iter(scenarios)
    live = {}
    t_start = time.time()
    exhausted = False
    while True:
        while not exhausted and len(live) < workers:
            if (wall_cap and time.time() - t_start > wall_cap) or (stop_on_violation and stop_on_violation()):
                exhausted = True
                break
            try:
                tag, sc = next(it)
            except StopIteration:
                exhausted = True
                break
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                for j in live.values():
                    os.close(j[1])
                _child(world, sc, root, wfd, record)
            os.close(wfd)
            live[rfd] = [tag, rfd, pid, sc, bytearray(), time.time()]
        if not live:
            return
        ready, _, _ = select.select(list(live), [], [], 5.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 16)
            job = live[fd]
            if chunk:
                job[4] += chunk
                continue
            os.close(fd)
            del live[fd]
            _, status = os.waitpid(job[2], 0)
            if job[4]:
                res = pickle.loads(bytes(job[4]))
            else:
                sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                cls = "no-progress" if sig in (signal.SIGXCPU,) or (
                    sig == signal.SIGKILL and time.time() - job[5] > world.cpu_cap) else "process-crash"
                if sig == signal.SIGKILL and cls == "process-crash":
                    res = dict(violation=None, harness="child killed (memory?)", digest="", events=0, counts={},
                               states=[], steps=0, secs=0.0, log=None)
                else:
                    res = dict(violation=(cls, "run ended by signal %s, status %s" % (sig, status)), harness=None,
                               digest=cls, events=0, counts={}, states=[], steps=0,
                               secs=time.time() - job[5], log=None)
            yield job[0], job[3], res


def run_one(world, sc, root, record=False):
    for _, _, res in run_many(world, [(0, sc)], root, 1, record):
        return res


# ------------------------------------------------------------------ minimisation

def _variants(world, sc):
    ops = sc["ops"]
    n = len(ops)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(sc, ops=ops[:i] + ops[i + size:])
        size //= 2
    for i, op in enumerate(ops):
        if op.get("fault"):
            new = dict(op)
            new.pop("fault")
            yield dict(sc, ops=ops[:i] + [new] + ops[i + 1:])
    for i, op in enumerate(ops):
        f = op.get("fault")
        if f and f.get("k", 0) > 1:
            for k in (1, f["k"] // 2, f["k"] - 1):
                yield dict(sc, ops=ops[:i] + [dict(op, fault=dict(f, k=k))] + ops[i + 1:])
    yield from world.shrink_config(sc)


def minimise(world, sc, cls, root, budget=60.0, workers=8):
    t_end = time.time() + budget
    improved, tried = True, 0
    while improved and time.time() < t_end:
        improved = False
        batch = []
        seen = set()
        for v in _variants(world, sc):
            key = json.dumps(v, sort_keys=True)
            if key in seen or key == json.dumps(sc, sort_keys=True):
                continue
            seen.add(key)
            batch.append((len(batch), v))
        best = None
        found = lambda: best is not None or time.time() > t_end
        for tag, v, res in run_many(world, batch, root, workers, stop_on_violation=found):
            tried += 1
            if res["violation"] and res["violation"][0] == cls and (best is None or tag < best[0]):
                best = (tag, v)
        if best:
            sc, improved = best[1], True
    return sc, tried
