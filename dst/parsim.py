"""Parallel numba kernels under a simulated thread team.

The Python source a kernel is compiled from is rewritten: the body of each outermost prange loop becomes a coroutine that
gives up control after every statement (between the read and the write of an in-place update of an array element), its
scalars become private to the thread and its reductions are kept per thread and combined, as numba does.  The simulator
splits the iterations over a team of threads and decides which of them runs its next statement.  Kernels not compiled with
parallel=True run their loops in order, as do parallel loops reached from inside another one."""
import ast
import inspect
import textwrap
import types
import numpy as np

KINDS = ("seq", "random", "robin", "ahead", "stall", "burst")
RED = {ast.Add: "+", ast.Sub: "+", ast.Mult: "*"}


class Team:
    def __init__(self):
        self.depth = self.steps = self.loops = self.switches = 0
        self.set(0, "seq", 1, "blocks")

    def set(self, seed, kind, threads, chunks):
        self.g = np.random.Generator(np.random.PCG64(seed))
        self.kind, self.threads, self.chunks = kind, threads, chunks
        self.trace = []

    @staticmethod
    def ident(op, v):
        one = 1 if op == "*" else 0
        return np.full_like(v, one) if isinstance(v, np.ndarray) else type(v)(one) if op in "+*" else v

    @staticmethod
    def fold(op, a, b):
        return a + b if op == "+" else a * b if op == "*" else max(a, b) if op == "max" else min(a, b)

    def run(self, body, args, ops, outer):
        """ops: reduction operators; outer: values of the reduction variables before the loop"""
        its = list(range(*[int(x) for x in args]))
        if self.depth or self.threads == 1 or len(its) < 2:
            self.depth += 1
            try:
                parts = [self.drain(body(its, *[self.ident(o, v) for o, v in zip(ops, outer)]))]
            finally:
                self.depth -= 1
        else:
            parts = self.team(body, its, ops, outer)
        out = list(outer)
        for p in parts:
            out = [self.fold(o, a, b) for o, a, b in zip(ops, out, p)]
        return out

    @staticmethod
    def drain(gen):
        while True:
            try:
                next(gen)
            except StopIteration as e:
                return e.value

    def team(self, body, its, ops, outer):
        self.loops += 1
        t = min(self.threads, len(its))
        if self.chunks == "blocks":
            own = [[its[i] for i in b] for b in np.array_split(np.arange(len(its)), t)]
        elif self.chunks == "uneven":
            cut = np.sort(self.g.integers(0, len(its) + 1, size=t - 1))
            own = [[its[i] for i in b] for b in np.split(np.arange(len(its)), cut)]
        else:
            own = [its[k::t] for k in range(t)]
        live = {k: body(o, *[self.ident(p, v) for p, v in zip(ops, outer)]) for k, o in enumerate(own)}
        done, last, kind = {}, None, self.kind
        slow = int(self.g.integers(t))
        lead = int(self.g.integers(t))
        left, turn = 0, 0
        self.depth += 1
        try:
            while live:
                ks = sorted(live)
                if kind == "seq":
                    k = ks[0]
                elif kind == "robin":
                    k = ks[turn % len(ks)]
                    turn += 1
                elif kind == "ahead":                                # one thread runs ahead, the others share what is left
                    k = lead if lead in live and self.g.random() < 0.8 else ks[int(self.g.integers(len(ks)))]
                elif kind == "stall":                                # one thread stops after its first steps until all others are done
                    others = [x for x in ks if x != slow]
                    k = slow if not others or (self.steps % 50 < 3 and slow in live and self.g.random() < 0.5) else others[int(self.g.integers(len(others)))]
                elif kind == "burst":
                    if left <= 0 or last not in live:
                        last, left = ks[int(self.g.integers(len(ks)))], int(self.g.integers(1, 9))
                    k, left = last, left - 1
                else:
                    k = ks[int(self.g.integers(len(ks)))]
                self.steps += 1
                if self.trace and self.trace[-1] != k:
                    self.switches += 1
                if len(self.trace) < 4000:
                    self.trace.append(k)
                try:
                    next(live[k])
                except StopIteration as e:
                    done[k] = e.value
                    del live[k]
        finally:
            self.depth -= 1
        return [done[k] for k in sorted(done)]


def is_prange(node):
    f = node.iter.func if isinstance(node, ast.For) and isinstance(node.iter, ast.Call) else None
    return f is not None and (getattr(f, "attr", None) == "prange" or getattr(f, "id", None) == "prange")


def stored(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def reductions(body, bound):
    """names updated by += -= *= or x = x + e, max(x, e), and not otherwise assigned in the body"""
    ops, plain = {}, set()
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                ops.setdefault(x.target.id, set()).add(RED.get(type(x.op), "?"))
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                name, v = x.targets[0].id, x.value
                if isinstance(v, ast.BinOp) and type(v.op) in RED and isinstance(v.left, ast.Name) and v.left.id == name:
                    ops.setdefault(name, set()).add(RED[type(v.op)])
                elif isinstance(v, ast.Call) and getattr(v.func, "id", None) in ("max", "min") and v.args and getattr(v.args[0], "id", None) == name:
                    ops.setdefault(name, set()).add(v.func.id)
                else:
                    plain.add(name)
            elif isinstance(x, (ast.Assign, ast.For, ast.With, ast.NamedExpr)):
                tg = x.targets if isinstance(x, ast.Assign) else [x.target] if hasattr(x, "target") else [i.optional_vars for i in x.items if i.optional_vars]
                plain |= stored(tg)
    return {k: next(iter(v)) for k, v in ops.items() if k in bound and k not in plain and len(v) == 1 and "?" not in v}


class Split(ast.NodeTransformer):
    """a yield after every statement, and between the read and the write of x[i] op= e; inner prange loops run in order"""

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.AugAssign) and not isinstance(s.target, ast.Name):
                load = ast.parse(ast.unparse(s.target), mode="eval").body
                out += [ast.Assign(targets=[ast.Name("_dst_t", ast.Store())], value=ast.BinOp(load, s.op, s.value)), y(),
                        ast.Assign(targets=[s.target], value=ast.Name("_dst_t", ast.Load())), y()]
                continue
            if is_prange(s):
                s.iter.func = ast.Name("range", ast.Load())
            for f in ("body", "orelse", "finalbody"):
                if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            out.append(s)
            if not isinstance(s, (ast.Continue, ast.Break, ast.Return)):
                out.append(y())
        return out


def y():
    return ast.Expr(ast.Yield(None))


class Rewrite(ast.NodeTransformer):
    def __init__(self, args):
        self.bound, self.n = set(args), 0

    def visit_FunctionDef(self, node):
        return node

    def generic_visit(self, node):
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            self.bound |= stored([node])
        return super().generic_visit(node)

    def visit_For(self, node):
        if not is_prange(node):
            self.bound |= stored([node.target])
            return self.generic_visit(node)
        self.n += 1
        red = reductions(node.body, self.bound)
        names = sorted(red)
        private = sorted((stored(node.body) | stored([node.target])) - set(red))
        b, fp = "_dst_body%d" % self.n, "_dst_fp%d" % self.n
        lines = ["%s = {}" % fp]
        for p in private:
            if p in self.bound:
                lines += ["try:", "    %s[%r] = %s" % (fp, p, p), "except NameError:", "    pass"]
        lines += ["def %s(_dst_its%s):" % (b, "".join(", " + r for r in names))]
        for p in private:
            if p in self.bound:
                lines += ["    if %r in %s:" % (p, fp), "        %s = %s[%r]" % (p, fp, p)]
        lines += ["    for _dst_i in _dst_its:", "        pass", "    return [%s]" % ", ".join(names)]
        args = ", ".join(ast.unparse(a) for a in node.iter.args)
        call = "_dst_team_.run(%s, (%s,), %r, [%s])" % (b, args, [red[r] for r in names], ", ".join(names))
        lines += [("[%s] = " % ", ".join(names) if names else "") + call]
        new = ast.parse("\n".join(lines)).body
        for s in new:
            if isinstance(s, ast.FunctionDef):
                loop = [x for x in s.body if isinstance(x, ast.For)][0]
                loop.target = node.target
                loop.body = Split().block(node.body)
        self.bound |= set(private)
        return new


def rewrite(f):
    src = textwrap.dedent(inspect.getsource(f))
    fn = ast.parse(src).body[0]
    fn.decorator_list = []
    a = fn.args
    rw = Rewrite([x.arg for x in a.posonlyargs + a.args + a.kwonlyargs])
    fn.body = [z for s in fn.body for z in (lambda r: r if isinstance(r, list) else [r])(rw.visit(s))]
    mod = ast.Module([fn], [])
    ast.fix_missing_locations(mod)
    ns = {}
    exec(compile(mod, "<team of %s>" % f.__name__, "exec"), f.__globals__, ns)
    return ns[fn.name], rw.n


def install(*modules):
    """replace the kernels of the modules by their simulated form; returns the team and the names of the kernels with parallel loops"""
    team, names, cache = Team(), [], {}

    def sub(v):
        if id(v) not in cache:
            f = v.py_func
            par = bool(getattr(v, "targetoptions", {}).get("parallel"))
            new, n = rewrite(f) if par else (f, 0)
            if n:
                names.append(f.__module__.replace("pystatsm.", "") + "." + f.__qualname__)
            cache[id(v)] = (new, v)
        return cache[id(v)][0]
    import numba
    fake = types.SimpleNamespace(**{k: getattr(numba, k) for k in ("jit", "njit", "types") if hasattr(numba, k)})
    for k in ("float64", "float32", "int64", "int32", "complex128"):
        setattr(fake, k, getattr(np, k))
    fake.boolean = np.bool_
    fake.prange = range
    fake.get_num_threads = lambda: team.threads
    for m in modules:
        for k, v in list(vars(m).items()):
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("pystatsm"):
                for kk, vv in list(vars(v).items()):
                    d = getattr(vv, "__func__", vv)
                    if hasattr(d, "py_func"):
                        setattr(v, kk, staticmethod(sub(d)))
            elif hasattr(v, "py_func"):
                setattr(m, k, sub(v))
        m._dst_team_ = team
        if "numba" in vars(m):
            m.numba = fake
        if "prange" in vars(m):
            m.prange = range
    return team, sorted(names)
