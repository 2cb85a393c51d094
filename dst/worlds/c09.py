"""C09: several callers, each with its own model object, their calls interleaved between any two lines of the library."""
import math
import warnings
import numpy as np
from ..core import World, HarnessError
from .. import faults, zoo, apis, extras, jitcache, threads
from ..sub import forked, SubError

TOL = dict(equal=1e-6, close=1e-5)
GAPS = (0, 2, 10, 60, 400, 3000)
OUT = ("glmen-cv",)                                   # uses the simulator's own patch of numpy
REFITS = ("x_jack", "x_boot", "x_perm", "x_refit", "x_fit_from", "x_from_start", "x_options")
NOT = dict(linear_sim=("old",))                        # draws from its module's generator: takes none from its caller


def plain(v):
    """an answer without the optimiser's own bookkeeping (times, counters, inner state)"""
    if isinstance(v, dict):
        return {k: v[k] for k in ("x", "fun") if k in v} if "nfev" in v or "nit" in v else {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


class W(World):
    prop = "C09"
    technique = ("deterministic simulation of 2-4 caller threads under a seeded scheduler that switches between any two executed lines of the library, or of 2-4 callers taking turns in one thread, with exceptions injected in "
                 "some callers; every answer is compared with that caller's calls run alone with the same faults")
    rule = ("a run draws 2-4 callers (half the time all of one model class), the data and 1-4 calls of each (construct, fit, fit with options, evaluate, predict, resample), which of "
            "them are stopped at a drawn line, whether data is shared, and the mean number of lines between switches (or one thread calling them in turn); non-trivial: the baton moved "
            "while another caller was inside a call")
    states_measure = "distinct (file, function of the caller left, file, function of the caller resumed) pairs at switches"
    real = ("constructors, fit, evaluation, prediction and resampling methods of the model classes in dst/zoo.py and dst/extras.py", "scipy optimisers", "compiled numba kernels")
    stub = ("thread scheduling: the baton decides who runs", "numpy's global generator: dealt to each caller by the simulator")
    assumptions = ("a switch happens between two lines of the library, not inside one line, a compiled kernel or scipy",
                   "an injected exception surfaces at the same line alone and interleaved; if not (a cache filled by another caller), that caller is compared up to there only")
    quick_runs, thorough_runs = 900, 60000

    def setup(self):
        self.by = {e.name: e for e in zoo.entries()[0] if e.name not in OUT}
        self.extra = extras.build()
        self.uses = {u.name: u for u in apis.uses()[0]}
        for u in self.uses.values():
            u.calls = {k: f for k, f in u.calls.items() if k not in NOT.get(u.name.replace("-", "_"), ())}
        self.ready = {e.name for e in self.by.values() if e.group == "factor" and e.name.startswith("fa2")}      # need no fit to be evaluated
        self.names = [e.name for e in self.by.values() for _ in range(8 // e.cost + 1)]

    def calls(self, e):
        out = dict(fit=lambda m, a, s: e.fit(m, a))
        for i, f in enumerate(e.alts):
            out["alt%d" % i] = (lambda f: lambda m, a, s: f(m, a))(f)
        out.update({"e_" + k: f for k, f in e.evals.items()})
        out.update({"q_" + k: f for k, f in e.queries.items()})
        out.update({"x_" + k: f for k, f in extras.of(e, self.extra).items()})
        return out

    def warm(self):
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        jitcache.enable(self.root[: -len("pystatsm/")])
        self.setup()

        def job(e):
            def f():
                a = e.data(np.random.default_rng(1))
                m = e.make(a)
                e.fit(m, a)
                for lab, call in self.calls(e).items():
                    try:
                        with threads.dealt_per_thread() as renew:
                            renew(5)
                            call(m, a, 0)
                    except Exception:
                        pass
            return f

        def ujob(u):
            def f():
                a = u.data(np.random.default_rng(1))
                o = u.make(a)
                for call in u.calls.values():
                    try:
                        call(o, a, 0, np.random.default_rng(1))
                    except Exception:
                        pass
            return f
        jitcache.parallel_warm([job(e) for e in sorted(self.by.values(), key=lambda e: -e.cost)] + [ujob(u) for u in self.uses.values()])
        for u in self.uses.values():
            try:
                zoo.quiet(ujob(u))
            except Exception:
                pass

        self.pool = {}
        with threads.dealt_per_thread() as renew:
            for e in self.by.values():
                self.pool[e.name] = []
                for seed in range(4):
                    try:
                        renew(5)
                        a = e.data(np.random.default_rng(seed))
                        m = e.make(a)
                        before = set(vars(m))
                        zoo.quiet(lambda: e.fit(m, a))
                        self.pool[e.name].append((a, m, before))
                    except Exception:
                        pass

    def gen(self, r, tier):
        if not hasattr(self, "names"):
            self.setup()
        n = r.choice([2, 2, 2, 3, 4])
        one = r.random() < 0.6
        pick = r.choice(self.names)
        who = [pick if one else r.choice(self.names) for _ in range(n)]
        if not one and r.random() < 0.5:
            group = self.by[pick].group
            same = [k for k in self.by if self.by[k].group == group]
            who = [r.choice(same) for _ in range(n)]
        kind = r.random()
        if kind < 0.7:
            kind = "use" if kind < 0.2 else "ready"
        else:
            kind = "whole"
        if kind == "ready" and one:
            who = [r.choice(list(self.by))] * n
        if kind == "use":
            pick = r.choice(list(self.uses))
            who = ["use:" + (pick if one else r.choice(list(self.uses))) for _ in range(n)]
        ops = []
        same = [(r.random(), r.random(), r.randrange(3)) for _ in range(5)] if r.random() < 0.5 else None        # everyone makes the same calls
        length = r.choice([1, 1, 2, 3, 4] if kind == "whole" else [1, 2, 3, 5])
        for t, name in enumerate(who):
            labels = list(self.calls(self.by[name])) if kind != "use" else list(self.uses[name[4:]].calls)
            light = [k for k in labels if k[:2] in ("e_", "q_", "x_") and not (kind == "ready" and k in REFITS)] or labels
            ops.append(dict(op="make", t=t, s=0))
            for j in range(length):
                y, z, s = same[j] if same else (r.random(), r.random(), r.randrange(3))
                first = j == 0 and kind == "whole" and (y < 0.7 or name not in self.ready)
                pool = light if y < 0.8 or kind == "ready" else labels
                ops.append(dict(op="fit" if first else pool[int(z * len(pool))], t=t, s=s))
        for op in ops:
            if r.random() < 0.15:
                f = dict(kind=r.choice(faults.KINDS))
                f["k"] = int(math.exp(r.random() * math.log(3000 if op["op"] != "make" and kind == "whole" else 300)))
                op["fault"] = f
        return dict(config=dict(who=who, kind=kind, seeds=[r.randrange(1 << 20) for _ in who], share=r.random() < 0.25, gap=r.choice(GAPS if kind == "whole" else GAPS[:5]), sched=r.randrange(1 << 30)), ops=ops)

    # ------------------------------------------------------------------
    def caller(self, c, ops, t, renew, record, data=None):
        """the body of caller t: its calls in order, each answer recorded, one step per call"""
        name, seed = c["who"][t], c["seeds"][t]
        state = {}
        if name.startswith("use:"):
            u = self.uses[name[4:]]
            e = zoo.Entry(name, "use", u.data, lambda a: u.make(a), None, [])
            calls = {k: (lambda f: lambda m, a, s: f(m, a, s, np.random.default_rng(s)))(f) for k, f in u.calls.items()}
        else:
            e = self.by[name]
            calls = self.calls(e)
        ready = self.pool[name] if c["kind"] == "ready" else None
        if ready and len(ready) >= len(c["who"]):
            a, m, before = ready[(c["seeds"][0] + t) % len(ready)]
            state.update(m=m, before=before)
        else:
            a = data if data is not None else e.data(np.random.default_rng(seed))

        def body(me):
            for op in ops:
                if op["t"] != t:
                    continue
                renew(5)
                flt = op.get("fault") or {}
                ans = {}
                try:
                    if op["op"] == "make" and "m" in state:
                        continue
                    if op["op"] == "make":
                        me.arm(flt.get("k", 0), flt.get("kind"))
                        try:
                            m = e.make(a)
                        finally:
                            me.k = 0
                        state["m"], state["before"] = m, set(vars(m)) if hasattr(m, "__dict__") else set()
                    elif "m" in state:
                        m = state["m"]
                        me.arm(flt.get("k", 0), flt.get("kind"))
                        try:
                            v = calls[op["op"]](m, a, op["s"])
                        finally:
                            me.k = 0
                        zoo.flatten("answer", plain(v), ans)
                        if op["op"] == "fit":
                            ans.update(zoo.read(m, zoo.reported(m, state["before"], e.attrs)))
                    else:
                        continue
                    how = "returned"
                except threads.Stuck:
                    raise
                except BaseException as x:
                    if not isinstance(x, Exception) and not faults.injected(x):
                        raise
                    how = "raised " + type(x).__name__
                record(t, op, how, ans, me.fired if flt else None, me.lines)
                yield
        return body

    def alone(self, c, ops, t):
        out = []
        with threads.dealt_per_thread() as renew:
            S = threads.Sched(self.root, 0, 0, trace=any(op.get("fault") for op in ops) or c["gap"] > 0)
            S.add(self.caller(c, ops, t, renew, lambda t, op, how, ans, fired, n: out.append((how, ans, fired, n))))
            S.run()
        return out

    def execute(self, sc, ctx):
        zoo.quiet(lambda: self.run(sc["config"], sc["ops"], ctx))

    def run(self, c, ops, ctx):
        n = len(c["who"])
        ref = []
        for t in range(n):
            try:
                d = dict(c, seeds=[c["seeds"][0]] * n) if c["share"] and c["who"][t] == c["who"][0] else c
                ref.append(forked(lambda: self.alone(d, ops, t)))
            except SubError as x:
                raise HarnessError(str(x))
        got = [[] for _ in range(n)]
        inside = [0]
        doing = [None] * n

        def switched(i, j, where):
            inside[0] += where[1] not in ("between calls", "finished")
            ctx.event("switch", i, j, *where)
            doing[i] = where
            if doing[j] is not None:
                ctx.state(where[0], where[1], doing[j][0], doing[j][1])
        with threads.dealt_per_thread() as renew:
            S = threads.Sched(self.root, c["sched"], c["gap"], trace=any(op.get("fault") for op in ops) or c["gap"] > 0, on_switch=switched)
            shared = None
            if c["share"]:
                first = c["who"][0]
                shared = (self.uses[first[4:]] if first.startswith("use:") else self.by[first]).data(np.random.default_rng(c["seeds"][0]))
            for t in range(n):
                S.add(self.caller(c, ops, t, renew, lambda t, *x: got[t].append(x), shared if c["who"][t] == c["who"][0] else None))
            try:
                S.run()
            except threads.Stuck as x:
                raise HarnessError(str(x))
        ctx.count("probe:switches", S.switches)
        ctx.count("fault:switch-inside-a-call", inside[0])
        for t in range(n):
            e = self.by.get(c["who"][t])
            tol = TOL[e.refit] if e else 1e-6
            for (op, how, ans, fired, lines), (rhow, rans, rfired, rlines) in zip(got[t], ref[t]):
                ctx.count("op:" + op["op"])
                ctx.steps += 1
                name = "caller %d: %s.%s" % (t, c["who"][t], op["op"])
                if fired:
                    ctx.count("fault:" + op["fault"]["kind"])
                if fired != rfired:
                    ctx.count("probe:fault-moved")
                    break
                ctx.event(t, op["op"], how, len(ans))
                ctx.check(how == rhow, "callers-interfere", "%s %s; alone it %s" % (name, how, rhow))
                ctx.check(sorted(ans) == sorted(rans), "callers-interfere", "%s reports %s; alone %s" % (name, sorted(set(ans) ^ set(rans))[:5], len(rans)))
                for k, w in rans.items():
                    if isinstance(w, str):
                        ctx.check(ans[k] == w, "callers-interfere", "%s %s" % (name, k))
                    else:
                        ctx.close(ans[k], w, "callers-interfere", rtol=tol, atol=tol * 1e-2, what="%s %s interleaved with %d others" % (name, k, n - 1))

    def nontrivial(self, sc, res):
        return res["counts"].get("probe:switches", 0) > 0

    def shrink_config(self, sc):
        c = sc["config"]
        n = len(c["who"])
        if n > 2:
            for d in range(n):
                keep = [t for t in range(n) if t != d]
                yield dict(sc, config=dict(c, who=[c["who"][t] for t in keep], seeds=[c["seeds"][t] for t in keep]), ops=[dict(op, t=keep.index(op["t"])) for op in sc["ops"] if op["t"] in keep])
        if c["share"]:
            yield dict(sc, config=dict(c, share=False))
        for g in GAPS:
            if c["gap"] and (g == 0 or g > c["gap"]):
                yield dict(sc, config=dict(c, gap=g))


WORLD = W
