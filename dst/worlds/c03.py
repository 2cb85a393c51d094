"""C03: every model class re-fitted after fits stopped at arbitrary lines."""
import math
import warnings
import numpy as np
from ..core import World
from .. import faults, zoo, jitcache

TOL = dict(equal=1e-6, close=1e-5)


class W(World):
    prop = "C03"
    technique = ("seeded simulation of fit histories with an exception (interrupt, out-of-memory, linear algebra failure) injected at an arbitrary "
                 "executed line of the library; the refit is compared with a freshly built model fitted once")
    rule = ("a run draws a model class, its data and 1-5 calls (fits, fits with other arguments, evaluations, predictions), most stopped at a drawn line, "
            "counted from either end of the call; then fits once more; non-trivial: a call was stopped or a fit repeated")
    states_measure = "distinct (model class, call, exception kind, file and function where it surfaced) tuples"
    real = ("constructors, fit and evaluation methods of every model class of the registry dst/zoo.py", "scipy optimisers", "compiled numba kernels")
    stub = ()
    assumptions = ("an exception surfaces between two lines of the library, not inside a compiled kernel or scipy (where it surfaces at the calling line)",
                   "a call that swallows the exception and returns is not judged itself")
    quick_runs, thorough_runs = 550, 40000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        jitcache.enable(self.root[: -len("pystatsm/")])
        self.entries, self.missing = zoo.entries()
        self.by = {e.name: e for e in self.entries}
        from ..core import rng_for  # noqa: F401
        slow = [e for e in self.entries if e.cost >= 2]

        def job(e):
            def f():
                a = e.data(np.random.default_rng(1))
                m = e.make(a)
                e.fit(m, a)
                self.calls(e, m, a)
            return f
        jitcache.parallel_warm([job(e) for e in sorted(slow, key=lambda e: -e.cost)])
        for e in self.entries:
            try:
                zoo.quiet(job(e))
            except Exception:
                pass

    @staticmethod
    def calls(e, m, a):
        for f in list(e.evals.values()) + list(e.queries.values()):
            f(m, a, 1)

    def gen(self, r, tier):
        names = getattr(self, "names", None)
        if names is None:
            es = zoo.entries()[0]
            names = self.names = [e.name for e in es for _ in range(6 // e.cost + 1)]
            self.by = {e.name: e for e in es}
        e = self.by[r.choice(names)]
        ops = []
        n = r.choice([1, 1, 2, 3, 5])
        for _ in range(n):
            kinds = ["fit"] * 4 + ["alt"] * bool(e.alts) * 2 + ["eval"] * bool(e.evals) + ["query"] * bool(e.queries)
            op = dict(op=r.choice(kinds), s=r.randrange(3))
            if r.random() < 0.8:
                f = dict(kind=r.choice(faults.KINDS))
                y = r.random()
                if y < 0.35:
                    f["frac"] = round(r.random(), 4)
                elif y < 0.75:
                    f["back"] = int(math.exp(r.random() * math.log(400)))
                else:
                    f["front"] = int(math.exp(r.random() * math.log(400)))
                op["fault"] = f
            ops.append(op)
        return dict(config=dict(entry=e.name, seed=r.randrange(1 << 30), check_evals=r.random() < 0.5), ops=ops)

    def execute(self, sc, ctx):
        c = sc["config"]
        zoo.quiet(lambda: self.run(sc["ops"], c, ctx))

    def run(self, ops, c, ctx):
        e = self.by[c["entry"]]
        fresh = lambda: e.data(np.random.default_rng(c["seed"]))
        try:
            a = fresh()
            ref = e.make(a)
            before = set(vars(ref))
            lines = {}
            with faults.LineFault(self.root, 0) as lf:
                e.fit(ref, a)
            lines["fit"] = lf.n
        except Exception as x:                   # data this class cannot fit: nothing to compare with
            ctx.count("probe:unfittable")
            ctx.event(e.name, "cannot be fitted", type(x).__name__)
            return
        names = zoo.reported(ref, before, e.attrs)
        want = zoo.read(ref, names)
        if not self.settled(e, ref):
            ctx.count("probe:reference-not-converged")
        ctx.event(e.name, len(want), lines["fit"])
        wevals = {k: self.call(f, ref, a, 1) for k, f in e.evals.items()} if c["check_evals"] else {}
        a = fresh()
        m = e.make(a)
        stopped = fits = 0
        for i, op in enumerate(ops):
            f = dict(fit=lambda: e.fit(m, a), alt=lambda: e.alts[op["s"] % len(e.alts)](m, a),
                     eval=lambda: list(e.evals.values())[op["s"] % len(e.evals)](m, a, op["s"]),
                     query=lambda: list(e.queries.values())[op["s"] % len(e.queries)](m, a, op["s"]))[op["op"]]
            flt = op.get("fault")
            ctx.count("op:" + op["op"])
            ctx.steps += 1
            lf = None
            try:
                if flt:
                    n = lines["fit"] if op["op"] in ("fit", "alt") else min(lines["fit"], 60)
                    k = flt.get("k") or (flt["front"] if "front" in flt else n - flt["back"] + 1 if "back" in flt else int(flt["frac"] * n) + 1)
                    with faults.LineFault(self.root, max(1, min(k, n)), flt["kind"]) as lf:
                        f()
                else:
                    f()
                out = "returned"
            except BaseException as x:
                if faults.injected(x) or (lf is not None and lf.fired):
                    out = "stopped"
                elif op["op"] == "fit":
                    ctx.fail("refit-raises", "%s: fit number %d raised %r where a fresh model fits" % (e.name, i, x))
                else:
                    out = "raised " + type(x).__name__
            if lf is not None and lf.fired:
                stopped += 1
                ctx.count("fault:" + flt["kind"])
                ctx.state(e.name, op["op"], flt["kind"], *lf.where)
            ctx.event(i, op["op"], out, lf.where if lf is not None else None)
            if op["op"] == "fit":
                fits += 1
                if out == "returned" and not (lf is not None and lf.fired):
                    self.compare(ctx, e, m, names, want, "refit-differs" if i else "fit-differs", "call %d" % i)
        try:
            e.fit(m, a)
        except Exception as x:
            ctx.fail("refit-raises", "%s: the fit after %d stopped calls raised %r where a fresh model fits" % (e.name, stopped, x))
        ctx.count("op:final-fit")
        self.compare(ctx, e, m, names, want, "refit-differs", "the last fit after %d fits and %d stopped calls" % (fits, stopped))
        for k, w in wevals.items():
            ctx.close(self.call(e.evals[k], m, a, 1), w, "evaluation-after-refit", rtol=TOL[e.refit], atol=TOL[e.refit], what=e.name + "." + k)
        ctx.count("probe:compared")
        if stopped:
            ctx.count("probe:stopped-then-compared")

    @staticmethod
    def call(f, m, a, s):
        try:
            return np.asarray(f(m, a, s), float)
        except Exception:
            return np.zeros(0)

    @staticmethod
    def settled(e, m):
        o = getattr(m, "opt", None)
        return getattr(o, "success", True)

    def compare(self, ctx, e, m, names, want, cls, what):
        got = zoo.read(m, names)
        tol = TOL[e.refit]
        for k, w in want.items():
            ctx.check(k in got, cls, "%s: %s missing after %s" % (e.name, k, what))
            if isinstance(w, str):
                ctx.check(got[k] == w, cls, "%s: %s after %s" % (e.name, k, what))
            else:
                ctx.close(got[k], w, cls, rtol=tol, atol=tol * 1e-2 if e.refit == "equal" else tol, what="%s.%s after %s:" % (e.name, k, what))


WORLD = W
