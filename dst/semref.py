"""Reference structural equation model: random structural specifications, the formula text that denotes them,
and the implied moments by the reticular action algebra (all variables in one vector, one directed matrix, one
symmetric matrix), derivatives by complex step."""
import numpy as np


def gen_spec(r, tier="quick"):
    """a random acyclic structural model as plain data"""
    nf = r.choice([0, 1, 1, 2, 2, 3])
    spec = dict(load=[], reg=[], cov=[], mean=[])
    obs = []
    facs = ["f%d" % (i + 1) for i in range(nf)]
    for i, f in enumerate(facs):
        k = r.choice([2, 3, 3, 4])
        ind = ["y%d" % (len(obs) + j + 1) for j in range(k)]
        obs += ind
        for j, v in enumerate(ind):
            spec["load"].append([f, v, None])
        if r.random() < 0.2:
            spec["load"][-k][2] = r.choice([1.0, 0.7])
        if k > 2 and r.random() < 0.3:
            spec["load"][-1][2] = "la"
            if r.random() < 0.6:
                spec["load"][-2][2] = "la"
    if nf >= 2 and r.random() < 0.25:
        spec["load"].append([facs[0], [o for o in obs if o not in [v for f, v, m in spec["load"] if f == facs[0]]][0], None])   # cross loading
    if nf >= 2 and r.random() < 0.2:
        for f in facs[:2]:
            spec["load"].append(["h", f, None])
        second = True
    else:
        second = False
    end = []
    if nf >= 2 and not second:
        for a in range(1, nf):
            for b in range(a):
                if r.random() < 0.6:
                    spec["reg"].append([facs[a], facs[b], r.choice([None, None, None, "rb", 0.4])])
                    end.append(facs[a])
    nx = r.choice([0, 0, 1, 2]) if nf else r.choice([1, 2, 3])
    xs = ["x%d" % (i + 1) for i in range(nx)]
    nz = r.choice([0, 0, 1]) if nf else r.choice([1, 2])
    zs = ["z%d" % (i + 1) for i in range(nz)]
    for f in facs:
        if xs and not second and r.random() < 0.6:
            for x in r.sample(xs, r.randrange(1, len(xs) + 1)):
                spec["reg"].append([f, x, r.choice([None, None, "rb"])])
    for i, z in enumerate(zs):
        pool = xs + (facs if not second else []) + zs[:i]
        if not pool:
            continue
        for v in r.sample(pool, r.randrange(1, min(len(pool), 3) + 1)):
            spec["reg"].append([z, v, r.choice([None, None, None, "rb", 0.5])])
    ind = [v for f, v, m in spec["load"] if v.startswith("y")]
    ind = list(dict.fromkeys(ind))
    if len(ind) >= 2 and r.random() < 0.4:
        for _ in range(r.choice([1, 2])):
            a, b = r.sample(ind, 2)
            if not any({a, b} == {c[0], c[1]} for c in spec["cov"]):
                spec["cov"].append([a, b, r.choice([None, None, "ca"])])
    if ind and r.random() < 0.25:
        v = r.choice(ind)
        spec["cov"].append([v, v, r.choice([None, 0.5, "va"])])
    if nf and r.random() < 0.35:
        for v in r.sample(facs, r.randrange(1, nf + 1)):
            spec["mean"].append([v, None])
    for v in ind:
        if r.random() < 0.15:
            spec["mean"].append([v, r.choice([None, 0.0, "ma"])])
    used = {v for a in spec["load"] for v in a[:2]} | {v for a in spec["reg"] for v in a[:2]}
    if not used:
        spec["reg"].append(["z1", "x1", None])
    return spec


def observed(spec):
    used = {v for a in spec["load"] for v in a[:2]} | {v for a in spec["reg"] for v in a[:2]} | {v for a in spec["cov"] for v in a[:2]}
    return sorted(v for v in used if v[0] in "xyz")


def formula(spec, r=None):
    """the formula text; r shuffles spacing, line order and term order"""
    def term(m, v):
        return v if m is None else "%s*%s" % (m, v)
    lines = []
    for op, key in (("=~", "load"), ("~", "reg"), ("~~", "cov")):
        lhs = list(dict.fromkeys(a[0] for a in spec[key]))
        for l in lhs:
            ts = [term(a[2], a[1]) for a in spec[key] if a[0] == l]
            if r is not None and r.random() < 0.3 and len(ts) > 1 and key != "load":
                lines += ["%s %s %s" % (l, op, t) for t in ts]
            else:
                lines.append("%s %s %s" % (l, op, " + ".join(ts)))
    for v, m in spec["mean"]:
        lines.append("%s ~ %s" % (v, term(m, "1")))
    if r is not None:
        r.shuffle(lines)
        if r.random() < 0.5:
            lines = ["   " + l.replace(" + ", r.choice(["+", "  +  "])) for l in lines]
        if r.random() < 0.3:
            lines.insert(0, "# model")
    return "\n".join(lines)


class Ram:
    """implied moments of one parameter table: rows (group, lhs, rel, rhs, value-or-theta-index)"""

    def __init__(self, rows, obs, n_groups):
        self.obs, self.G = list(obs), n_groups
        names = list(obs) + sorted({v for _, l, rel, h, _, _ in rows for v in (l, h) if v != "1" and v not in obs})
        self.ix = {v: i for i, v in enumerate(names)}
        self.names, self.rows = names, rows

    def moments(self, cells, g):
        """cells: value of every row of group g, in row order; leading axes are a stack of points"""
        m, lead = len(self.names), cells.shape[:-1]
        dt = complex if np.iscomplexobj(cells) else float
        A, S, a = np.zeros(lead + (m, m), dt), np.zeros(lead + (m, m), dt), np.zeros(lead + (m,), dt)
        for j, (gg, l, rel, h, _, _) in enumerate([x for x in self.rows if x[0] == g]):
            v = cells[..., j]
            if rel == "=~":
                A[..., self.ix[h], self.ix[l]] = v
            elif rel == "~~":
                S[..., self.ix[l], self.ix[h]] = v
                S[..., self.ix[h], self.ix[l]] = v
            elif h == "1":
                a[..., self.ix[l]] = v
            else:
                A[..., self.ix[l], self.ix[h]] = v
        E = np.linalg.inv(np.eye(m) - A)
        k = len(self.obs)
        return (E @ S @ np.swapaxes(E, -1, -2))[..., :k, :k], (E @ a[..., None])[..., :k, 0]

    def cells(self, theta, g):
        rr = [x for x in self.rows if x[0] == g]
        out = np.empty(theta.shape[:-1] + (len(rr),), theta.dtype)
        for j, (_, _, _, _, val, ti) in enumerate(rr):
            out[..., j] = theta[..., ti] if ti is not None else val
        return out

    def implied(self, theta):
        return [self.moments(self.cells(theta, g), g) for g in range(self.G)]


def logdet(S):
    s, l = np.linalg.slogdet(S)
    return np.log(s) + l if np.iscomplexobj(S) else l


def group_f(Sigma, mu, S, m):
    """F of one group"""
    V = np.linalg.inv(Sigma)
    r = m - mu
    return (logdet(Sigma) + np.einsum("...ij,ji->...", V, S) + np.einsum("...i,...ij,...j->...", r, V, r)
            - np.linalg.slogdet(S)[1] - len(S))


def obs_nll(Sigma, mu, Y):
    V = np.linalg.inv(Sigma)
    D = Y - mu[..., None, :]
    return 0.5 * (logdet(Sigma)[..., None] + np.sum((D @ V) * D, axis=-1) + mu.shape[-1] * np.log(2 * np.pi))


def grad_at(f, T, h=1e-20):
    """complex-step derivatives of f at a stack of points: (points, ..., parameters)"""
    K, n = T.shape
    Z = np.repeat(T[:, None, :].astype(complex), n, axis=1)
    Z[:, np.arange(n), np.arange(n)] += 1j * h
    out = np.imag(f(Z.reshape(K * n, n))) / h
    out = out.reshape((K, n) + out.shape[1:])
    return np.moveaxis(out, 1, -1)


def cstep(f, t):
    """derivative of f (which takes a stack of points) at t along a new last axis"""
    t = np.asarray(t, float)
    if not len(t):
        return np.zeros(np.shape(f(t[None]))[1:] + (0,))
    return grad_at(f, t[None])[0]


def hess(f, t, h=1e-5):
    t = np.asarray(t, float)
    n = len(t)
    if not n:
        return np.zeros(np.shape(f(t[None]))[1:] + (0, 0))
    s = h * np.maximum(1.0, np.abs(t))
    pts = np.concatenate([t + c * np.diag(s) for c in (1, -1, 2, -2)])
    g = np.concatenate([grad_at(f, pts[i:i + 16]) for i in range(0, len(pts), 16)])
    g = g.reshape((4, n) + g.shape[1:])
    H = (8 * (g[0] - g[1]) - (g[2] - g[3]))
    H = H / (12 * s).reshape((n,) + (1,) * (H.ndim - 1))
    return np.moveaxis(H, 0, -1)
