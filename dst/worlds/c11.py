"""C11: calls that are given a generator, executed in worlds that differ in every other source of randomness."""
import contextlib
import math
import random
import warnings
import numpy as np
from ..core import World, HarnessError
from .. import faults, zoo, apis, jitcache
from ..sub import forked, SubError

GENS = dict(pcg=np.random.PCG64, mt=np.random.MT19937, philox=np.random.Philox, sfc=np.random.SFC64)
HASHES = (1, 2)

# calls whose answer may legitimately be the same for different generator states
SAME = {("robust-s", "fit"), ("misc", "kfold")}


def out_names(x):
    d = {}
    zoo.flatten("out", list(x) if isinstance(x, tuple) else x, d)
    return {k: v for k, v in d.items() if not isinstance(v, str)}


class W(World):
    prop = "C11"
    technique = ("seeded simulation of schedules of calls sharing generators, each schedule executed in worlds that differ in the global NumPy, Python and numba generators, in what was "
                 "drawn before, in calls on other generators stopped at a line, and in the string hash seed of the interpreter; answers and end states of the generators are compared")
    rule = ("a run draws 1-5 calls (simulators, random matrices, families, folds, permutation tests, bootstraps), their data, 1-3 generators of four kinds they share, and the "
            "disturbances; non-trivial: a call drew from its generator")
    states_measure = "distinct (call, generator kind, disturbance, outcome) tuples"
    real = ("every function and class of dst/apis.py that takes a generator or a seed", "bootstraps and permutation tests of the models that take one", "numpy's bit generators")
    stub = ()
    assumptions = ("functions that take a seed instead of a generator are given one drawn from it", "four other generator states stand for 'a different generator'")
    quick_runs, thorough_runs = 1100, 60000
    servers = {}

    # ------------------------------------------------------------------ the calls
    def setup(self):
        self.uses = {u.name: u for u in apis.uses()[0] if u.rng}
        self.models = {}
        nb = lambda m, a, s, r: m._bootstrap(n_boot=2 + s, verbose=False, rng=r)
        self.mcalls = {
            "ols2": dict(perm=lambda m, a, s, r: m._permutation_test(["x1"] if s == 1 else None, n_perms=3 + s, verbose=False, rng=r)),
            "glm2-gauss": dict(boot=nb), "glm2-poisson": dict(boot=nb), "glm2-binom": dict(boot=nb), "glm2-mn": dict(boot=nb), "clm2": dict(boot=nb), "glm2-nr": dict(boot=nb),
            "lmglm-poisson": dict(boot=nb), "lmglm-binom": dict(boot=nb), "lm": dict(perm=lambda m, a, s, r: m._permutation_test(["x1"] if s == 1 else None, n_perms=3 + s, verbose=False, rng=r)),
            "robust-s": dict(fit=lambda m, a, s, r: m.fit(n_iters=4, rng=r)),
        }
        self.choices = [("use", u.name, k) for u in self.uses.values() for k in sorted(u.rng)]
        names = {e.name for e in zoo.entries()[0]}
        self.choices += [("model", n, k) for n, c in self.mcalls.items() if n in names for k in c]

    def fit_models(self):
        for e in zoo.entries()[0]:
            if e.name in self.mcalls:
                try:
                    a = e.data(np.random.default_rng(4))
                    m = e.make(a)
                    e.fit(m, a)
                    self.models[e.name] = (m, a)
                except Exception:
                    pass

    def prepare(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        jitcache.enable(self.root[: -len("pystatsm/")])
        self.setup()

    def load_uses(self, models=True):
        self.lines = {}
        import numba

        @numba.njit
        def nbseed(s):
            np.random.seed(s)
        nbseed(1)
        self.nbseed = nbseed
        for kind, name, lab in self.choices:
            if kind == "model" and not models:
                continue
            try:
                o, a, f = self.target(kind, name, 1, lab)
                for count in (False, True):
                    with faults.LineFault(self.root, 0) if count else contextlib.nullcontext() as lf:
                        zoo.quiet(lambda: f(o, a, 1, np.random.default_rng(1)))
                self.lines[name, lab] = lf.n
            except Exception:
                pass

    def serve(self):
        self.prepare()
        self.load_uses(models=False)

    def warm(self):
        self.prepare()
        self.nbseed = None
        byuse = {}
        for kind, name, lab in self.choices:
            byuse.setdefault((kind, name), []).append(lab)

        def job(kind, name, labs):
            def f():
                if kind == "model":
                    self.fit_models()
                for lab in labs:
                    try:
                        o, a, call = self.target(kind, name, 1, lab)
                        call(o, a, 1, np.random.default_rng(1))
                    except Exception:
                        pass
            return f
        jitcache.parallel_warm([job("model", "", [])] + [job(k, n, labs) for (k, n), labs in byuse.items() if k == "use"])
        from ..hashserver import Server
        self.servers = {h: Server(self.prop, self.root[: -len("/pystatsm/")], h) for h in HASHES}
        zoo.quiet(self.fit_models)
        self.load_uses()
        for h, s in self.servers.items():
            if not s.wait():
                raise RuntimeError("the interpreter with hash seed %d did not start" % h)

    def target(self, kind, name, seed, lab):
        if kind == "model":
            m, a = self.models[name]
            return m, a, self.mcalls[name][lab]
        u = self.uses[name]
        a = u.data(np.random.default_rng(seed))
        return u.make(a), a, u.calls[lab]

    # ------------------------------------------------------------------ scenarios
    def gen(self, r, tier):
        if not hasattr(self, "choices"):
            self.setup()
        ng = r.choice([1, 1, 2, 3])
        one = r.random() < 0.4
        pick = r.choice(self.choices)
        ops = []
        for _ in range(r.choice([1, 2, 3, 5])):
            kind, name, lab = pick if one else r.choice(self.choices)
            op = dict(op=lab, kind=kind, name=name, s=r.randrange(3), g=r.randrange(ng), data=r.randrange(1 << 20), noise=r.choice(["", "", "draw", "reseed", "numba", "python"]))
            if r.random() < 0.4:
                f = dict(kind=r.choice(faults.KINDS), own=r.random() < 0.3)
                if r.random() < 0.6:
                    f["frac"] = round(r.random(), 4)
                else:
                    f["back"] = int(math.exp(r.random() * math.log(60)))
                op["fault"] = f
            ops.append(op)
        return dict(config=dict(gens=[[r.choice(list(GENS)), r.randrange(1 << 32)] for _ in range(ng)], env=r.randrange(1 << 30), hash=r.choice(HASHES) if r.random() < 0.35 else None,
                                others=r.random() < 0.4), ops=ops)

    # ------------------------------------------------------------------ one world
    def play(self, c, ops, env, disturbed, kinds=("use", "model"), salt=0):
        """run the schedule in a world: [(outcome, answer, generator state after, global state untouched)]"""
        g = np.random.default_rng([c["env"], env])
        np.random.seed(int(g.integers(1 << 31)))
        random.seed(int(g.integers(1 << 31)))
        if self.nbseed is not None:
            self.nbseed(int(g.integers(1 << 31)))
        gens = [np.random.Generator(GENS[k](s + salt)) for k, s in c["gens"]]
        out = []
        for op in ops:
            if op["kind"] not in kinds:
                out.append(None)
                continue
            o, a, f = self.target(op["kind"], op["name"], op["data"], op["op"])
            hit = None
            if disturbed:
                n = int(g.integers(1, 9))
                if op["noise"] == "draw":
                    np.random.normal(size=n)
                    np.random.default_rng().normal(size=n)
                elif op["noise"] == "reseed":
                    np.random.seed(n)
                elif op["noise"] == "numba":
                    self.nbseed(n)
                elif op["noise"] == "python":
                    random.seed(n)
                flt = op.get("fault")
                if flt:
                    o2, a2, f2 = self.target(op["kind"], op["name"], op["data"] if flt["own"] else op["data"] + 1, op["op"])
                    scratch = np.random.Generator(np.random.PCG64(n))
                    L = self.lines.get((op["name"], op["op"]), 50)
                    k = flt.get("k") or (max(1, L - flt["back"] + 1) if "back" in flt else int(flt["frac"] * L) + 1)
                    with faults.LineFault(self.root, k, flt["kind"]) as lf:
                        try:
                            f2(o2, a2, op["s"], scratch)
                        except BaseException as x:
                            if not isinstance(x, Exception) and not faults.injected(x):
                                raise
                    hit = lf.where if lf.fired else None
            before = np.random.get_state()
            pre = repr(gens[op["g"]].bit_generator.state)
            try:
                ans, how = out_names(f(o, a, op["s"], gens[op["g"]])), "returned"
            except Exception as x:
                ans, how = {}, "raised " + type(x).__name__
            after = np.random.get_state()
            same = before[0] == after[0] and np.array_equal(before[1], after[1]) and before[2:] == after[2:]
            post = repr(gens[op["g"]].bit_generator.state)
            out.append((how, ans, post, same, pre != post, hit))
        return out

    def answer(self, msg):
        """what the interpreter with another hash seed is asked"""
        return zoo.quiet(lambda: self.play(*msg, kinds=("use",)))

    def execute(self, sc, ctx):
        zoo.quiet(lambda: self.run(sc["config"], sc["ops"], ctx))

    def world(self, f):
        try:
            return forked(f)
        except SubError as x:
            raise HarnessError(str(x))

    def run(self, c, ops, ctx):
        A = self.world(lambda: self.play(c, ops, 0, False))
        B = self.world(lambda: self.play(c, ops, 1, True))
        ctx.steps += len(ops) * 2
        worlds = [("the other global state", B)]
        if c["hash"] and any(op["kind"] == "use" for op in ops):
            C = self.servers[c["hash"]].ask((c, ops, 2, False))
            # generators advance only if every call before ran there too
            worlds.append(("hash seed %d" % c["hash"], C))
            ctx.count("fault:hash-seed")
        for i, op in enumerate(ops):
            name = "%s.%s" % (op["name"], op["op"])
            how, ans, state, same, moved, _ = A[i]
            ctx.count("op:" + op["op"])
            ctx.event(name, op["s"], op["g"], how, len(ans))
            ctx.check(same, "global-state-touched", "%s changed NumPy's global random state" % name)
            if moved:
                ctx.count("probe:drew")
            for label, w in worlds:
                if label.startswith("hash"):
                    if w[i] is None or any(o["kind"] == "model" and o["g"] == op["g"] for o in ops[:i]):
                        continue
                bhow, bans, bstate, bsame, _, hit = w[i]
                if hit:
                    ctx.count("fault:" + op["fault"]["kind"])
                ctx.state(name, c["gens"][op["g"]][0], op["noise"] if not label.startswith("hash") else label, how, *(hit or ()))
                ctx.check(bsame, "global-state-touched", "%s changed NumPy's global random state" % name)
                ctx.check(bhow == how, "hidden-randomness", "%s %s, with %s it %s" % (name, how, label, bhow))
                ctx.check(sorted(bans) == sorted(ans), "hidden-randomness", "%s answers other parts with %s" % (name, label))
                for k in ans:
                    ctx.close(bans[k], ans[k], "hidden-randomness", rtol=1e-9, atol=1e-12, what="%s %s with %s" % (name, k, label))
                ctx.check(bstate == state, "hidden-randomness", "%s leaves the generator in another state with %s" % (name, label))
            if how == "returned":
                ctx.check(ans, "no-answer", name)
        if c["others"]:
            last = len(ops) - 1
            op = ops[last]
            if A[last][0] == "returned" and (op["name"], op["op"]) not in SAME:
                one = dict(op)
                outs = [self.world(lambda: self.play(c, [one], 3, False, salt=1 + 7 * j))[0] for j in range(4)]
                ref = self.world(lambda: self.play(c, [one], 3, False))[0]
                ctx.count("probe:others")
                differ = any(o[0] != ref[0] or any(k not in o[1] or o[1][k].shape != v.shape or not np.array_equal(o[1][k], v, equal_nan=True) for k, v in ref[1].items()) for o in outs)
                ctx.check(differ, "draws-not-from-generator", "%s.%s gives the same answer for five generator states" % (op["name"], op["op"]))

    def nontrivial(self, sc, res):
        return res["counts"].get("probe:drew", 0) > 0

WORLD = W
