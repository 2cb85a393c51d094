"""C10: sessions of calls whose arguments the caller keeps a bit-for-bit record of."""
import contextlib
import json
import math
import os
import warnings
import numpy as np
from ..core import World
from .. import faults, zoo, apis, extras, given, jitcache

TOL = dict(equal=1e-7, close=1e-5)


class W(World):
    prop = "C10"
    technique = ("seeded simulation of sessions of public calls with an exception (interrupt, out-of-memory, linear algebra failure) injected at an arbitrary "
                 "executed line; a ledger compares every argument handed over, bit for bit, after every call")
    rule = ("a run draws a model class or a helper of the library, its data and 2-7 calls (construct, fit, fit with option dictionaries, evaluate, predict, "
            "resample, simulate), two thirds stopped at a drawn line; after each call every array, frame and dictionary given so far is compared with its first "
            "state; at the end a fresh object called without options is compared with one called so before the session; non-trivial: a call ran")
    states_measure = "distinct (class, call, exception kind or none, file and function where it surfaced) tuples"
    real = ("public methods of the model classes in dst/zoo.py and dst/extras.py", "functions, families, transforms, rotations, simulators and survey designs in dst/apis.py",
            "scipy optimisers", "compiled numba kernels")
    stub = ("generators of calls that take none are dealt by the simulator",)
    assumptions = ("an exception surfaces between two lines of the library, not inside a compiled kernel or scipy (where it surfaces at the calling line)",
                   "functions documented to work in place (sparse in-place kernels, chol_downdate) are not part of the property")
    quick_runs, thorough_runs = 450, 60000

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        jitcache.enable(self.root[: -len("pystatsm/")])
        self.setup()

        counts = os.path.join(self.root, "..", ".lines")
        os.makedirs(counts, exist_ok=True)

        def counted(name, runs):
            """the lines of the library each call executes, for placing faults; written down for the parent"""
            def job():
                out = {}
                for lab, f in runs():
                    for count in (False, True):          # the first time compiles, undisturbed
                        try:
                            with faults.LineFault(self.root, 0) if count else contextlib.nullcontext() as lf:
                                f()
                        except Exception:
                            pass
                    out[lab] = lf.n
                with open(os.path.join(counts, name + ".json"), "w") as fh:
                    json.dump(out, fh)
            return job

        def mruns(e):
            def runs():
                for lab, call in self.calls(e).items():
                    a = e.data(np.random.default_rng(1))
                    m = []
                    if lab == "make":
                        yield lab, lambda: e.make(a)
                        continue
                    try:
                        m.append(e.make(a))
                        e.fit(m[0], a)
                    except Exception:
                        continue
                    yield lab, lambda: zoo.dealt(lambda: call(m[0], a, 0))
            return runs

        def uruns(u):
            def runs():
                a = u.data(np.random.default_rng(1))
                o = u.make(a)
                for lab, call in u.calls.items():
                    yield lab, lambda: call(o, a, 0, np.random.default_rng(3))
            return runs
        jobs = [counted(e.name, mruns(e)) for e in sorted(self.by.values(), key=lambda e: -e.cost)] + [counted(u.name, uruns(u)) for u in self.uses.values()]
        jitcache.parallel_warm(jobs)
        self.linecount = {}
        for name in list(self.by) + list(self.uses):
            try:
                with open(os.path.join(counts, name + ".json")) as fh:
                    self.linecount[name] = json.load(fh)
            except OSError:
                self.linecount[name] = {}

        def load(e):
            def f():
                a = e.data(np.random.default_rng(1))
                m = e.make(a)
                e.fit(m, a)
            return f
        for j in [load(e) for e in self.by.values() if e.cost < 4] + [counted(u.name, uruns(u)) for u in self.uses.values()]:
            try:
                zoo.quiet(j)
            except Exception:
                pass

    def setup(self):
        self.by = {e.name: e for e in zoo.entries()[0]}
        self.uses = {u.name: u for u in apis.uses()[0]}
        self.extra = extras.build()
        self.names = [("model", e.name) for e in self.by.values() for _ in range(3)] + [("use", u) for u in self.uses for _ in range(2)]

    def calls(self, e):
        out = dict(make=None, fit=lambda m, a, s: e.fit(m, a))
        for i, f in enumerate(e.alts):
            out["alt%d" % i] = (lambda f: lambda m, a, s: f(m, a))(f)
        out.update({"e_" + k: f for k, f in e.evals.items()})
        out.update({"q_" + k: f for k, f in e.queries.items()})
        out.update({"x_" + k: f for k, f in extras.of(e, self.extra).items()})
        return out

    def gen(self, r, tier):
        if not hasattr(self, "names"):
            self.setup()
        kind, name = r.choice(self.names)
        labels = [k for k in self.calls(self.by[name]) if k != "make"] if kind == "model" else list(self.uses[name].calls)
        ops = []
        for _ in range(r.choice([2, 3, 4, 7])):
            op = dict(op=r.choice(labels), s=r.randrange(3))
            if kind == "model" and r.random() < 0.15:
                op["op"] = r.choice(["make", "fit"])
            if r.random() < 0.66:
                f = dict(kind=r.choice(faults.KINDS))
                y = r.random()
                if y < 0.5:
                    f["frac"] = round(r.random(), 4)
                elif y < 0.75:
                    f["back"] = int(math.exp(r.random() * math.log(200)))
                else:
                    f["front"] = int(math.exp(r.random() * math.log(200)))
                op["fault"] = f
            ops.append(op)
        return dict(config=dict(kind=kind, entry=name, seed=r.randrange(1 << 30), fitted=r.random() < 0.8, defaults=r.random() < 0.3), ops=ops)

    def execute(self, sc, ctx):
        c = sc["config"]
        given.LEDGER = L = given.Ledger()
        try:
            zoo.quiet(lambda: (self.model if c["kind"] == "model" else self.use)(c, sc["ops"], ctx, L))
        finally:
            given.LEDGER = None

    def one(self, ctx, L, name, lab, s, flt, f):
        """one call, possibly stopped, and the ledger afterwards"""
        ctx.count("op:" + lab)
        ctx.steps += 1
        lf = None
        try:
            if flt:
                if "front" in flt:
                    k = flt["front"]
                else:
                    if flt.get("k"):
                        k = flt["k"]
                    else:
                        n = self.linecount.get(name, {}).get(lab, 200)
                        k = max(1, n - flt["back"] + 1) if "back" in flt else int(flt["frac"] * n) + 1
                with faults.LineFault(self.root, k, flt["kind"]) as lf:
                    f()
            else:
                f()
            out = "returned"
        except BaseException as x:
            if not isinstance(x, Exception) and not faults.injected(x):
                raise
            out = "stopped" if lf is not None and lf.fired else "raised " + type(x).__name__
        where = lf.where if lf is not None and lf.fired else ("-", "-")
        if lf is not None and lf.fired:
            ctx.count("fault:" + flt["kind"])
            out = "stopped"
        ctx.state(name, lab, out, *where)
        ctx.event(lab, s, out, where)
        d = L.changed()
        if d:
            ctx.fail("argument-changed", "%s.%s %s: %s" % (name, lab, out, d))

    def model(self, c, ops, ctx, L):
        e = self.by[c["entry"]]
        calls = self.calls(e)
        fresh = lambda: e.data(np.random.default_rng(c["seed"]))
        ref = None
        try:
            if c["defaults"]:
                a0 = fresh()
                m0 = e.make(a0)
                before = set(vars(m0))
                e.fit(m0, a0)
                names = zoo.reported(m0, before, e.attrs)
                ref = zoo.read(m0, names)
            a = L.give("data", fresh())
            m = e.make(a)
            if c["fitted"]:
                e.fit(m, a)
        except Exception as x:
            ctx.count("probe:unfittable")
            ctx.event(e.name, "cannot be fitted", type(x).__name__)
            return
        d = L.changed()
        ctx.check(not d, "argument-changed", "%s: building and fitting: %s" % (e.name, d))
        for op in ops:
            if op["op"] == "make":
                f = lambda: e.make(a)
            else:
                f = lambda: zoo.dealt(lambda: calls[op["op"]](m, a, op["s"]))
            self.one(ctx, L, e.name, op["op"], op["s"], op.get("fault"), f)
        if ref is not None:
            a1 = fresh()
            try:
                m1 = e.make(a1)
                e.fit(m1, a1)
            except Exception as x:
                ctx.fail("defaults-changed", "%s: a fresh object fitted without options raised %r after %d calls on another, and did not before" % (e.name, x, len(ops)))
            got = zoo.read(m1, names)
            tol = TOL[e.refit]
            for k, w in ref.items():
                ctx.check(k in got, "defaults-changed", "%s: %s missing after calls on another object" % (e.name, k))
                if not isinstance(w, str):
                    ctx.close(got[k], w, "defaults-changed", rtol=tol, atol=tol, what="%s.%s of a fresh object after %d calls on another" % (e.name, k, len(ops)))
            ctx.count("probe:defaults")

    def use(self, c, ops, ctx, L):
        u = self.uses[c["entry"]]
        a = L.give("args", u.data(np.random.default_rng(c["seed"])))
        try:
            o = u.make(a)
        except Exception as x:
            ctx.event(u.name, "cannot be made", type(x).__name__)
            return
        for i, op in enumerate(ops):
            f = lambda: u.calls[op["op"]](o, a, op["s"], np.random.default_rng(c["seed"] + i))
            self.one(ctx, L, u.name, op["op"], op["s"], op.get("fault"), f)

WORLD = W
