"""Dense reference for linear mixed models, built from the design description alone (no code under test).

A design is JSON; the data frame, X and Z are rebuilt from it.  Conventions of the code under test that
are part of its interface: theta = concatenated vech(lower triangle, column by column) of each term's
covariance, then the residual variance; random effects are ordered term by term, level by level (levels
in the given order), variable by variable; log likelihoods are -2 log L without n*log(2*pi)."""
import numpy as np
import pandas as pd

COV_KINDS = ("normal", "balanced", "ints", "zeros", "binary", "smallscale")


def gen_design(r, max_obs=90, small=False):
    n_terms = r.choice([1, 1, 2, 2, 3])
    gf = []
    for k in range(n_terms):
        gf.append(dict(name="id%d" % (k + 1), levels=r.choice([2, 3, 4, 5, 6, 8, 10, 12, 12, 30] if not small else [3, 4, 5, 6]),
                       layout=r.choice(["block", "cyclic", "random", "unbalanced", "nested" if k else "block"]),
                       labels=r.choice(["int", "int", "rev", "str"])))
    covs = {}
    for c in ("x1", "x2", "x3"):
        covs[c] = r.choice(COV_KINDS)
    terms = []
    used = set()
    for k in range(n_terms):
        opts = [("1", ["1"]), ("1+x1", ["1", "x1"]), ("1+x2", ["1", "x2"]), ("0+x1", ["x1"]),
                ("1+x1+x2", ["1", "x1", "x2"]), ("1+x3", ["1", "x3"])]
        w = [5, 3, 3, 1, 1, 2]
        form, cols = r.choices(opts, w)[0]
        # the same grouping may carry two independent terms
        g = gf[k]["name"] if r.random() < 0.85 or k == 0 else gf[0]["name"]
        if (form, g) in used:
            form, cols = "1", ["1"]
            if (form, g) in used:
                g = gf[k]["name"]
        used.add((form, g))
        terms.append(dict(form=form, cols=cols, group=g))
    fe = r.choice([["1"], ["1", "x1"], ["1", "x1", "x2"], ["1", "x2"], ["1", "x3"], ["x1", "x3"]])
    need = sum(len(t["cols"]) for t in terms)
    per = r.choice([2, 3, 4, 5])
    n = min(max_obs, max(gf[0]["levels"] * per, need * 4 + len(fe) + 6, 12))
    return dict(n=n, factors=gf, covs=covs, terms=terms, fe=fe, seed=r.randrange(1 << 30),
                yscale=r.choice([1.0, 1.0, 1.0, 10.0, 0.1]), per=per, index=r.choice(["range", "range", "shift", "str"]))


def build_frame(d):
    rg = np.random.default_rng(d["seed"])
    n = d["n"]
    df = {}
    for name, kind in d["covs"].items():
        if kind == "normal":
            v = rg.normal(size=n)
        elif kind == "balanced":
            m = d["per"]
            base = np.arange(m) - (m - 1) / 2.0
            v = np.resize(base, n)
        elif kind == "ints":
            v = rg.integers(-2, 3, size=n).astype(float)
        elif kind == "zeros":
            v = np.where(rg.random(n) < 0.6, 0.0, rg.normal(size=n))
        elif kind == "binary":
            v = (rg.random(n) < 0.5).astype(float)
        else:
            v = 0.05 * rg.normal(size=n) + 0.3
        if np.ptp(v) == 0:
            v = v.copy()
            v[0] += 1.0
        df[name] = v
    # make sure fixed-effect columns are linearly independent
    k = 0
    while True:
        X = np.column_stack([np.ones(n) if c == "1" else df[c] for c in d["fe"]])
        if np.linalg.cond(X) < 1e4:
            break
        k += 1
        for c in d["fe"]:
            if c != "1":
                df[c] = df[c] + 0.7 * rg.normal(size=n)
    prev = None
    for f in d["factors"]:
        L = min(f["levels"], n)
        lay = f["layout"]
        if lay == "block":
            g = np.minimum(np.arange(n) // max(1, n // L), L - 1)
        elif lay == "cyclic":
            g = np.arange(n) % L
        elif lay == "nested" and prev is not None:
            g = prev * 2 + (rg.random(n) < 0.5)
        elif lay == "unbalanced":
            p = rg.dirichlet(np.ones(L) * 0.7)
            g = rg.choice(L, size=n, p=p)
        else:
            g = rg.integers(0, L, size=n)
        prev = g
        if f["labels"] == "rev":
            g2 = g.max() - g
        elif f["labels"] == "str":
            g2 = np.array(["g%s" % c for c in "zyxwvutsrqponmlkjihgfedcba"])[g % 26] if g.max() < 26 else g
        else:
            g2 = g
        df[f["name"]] = g2
    X = np.column_stack([np.ones(n) if c == "1" else df[c] for c in d["fe"]])
    y = X @ rg.normal(size=X.shape[1]) + rg.normal(size=n)
    for t in d["terms"]:
        codes = pd.factorize(np.asarray(df[t["group"]]))[0]
        B = rg.normal(size=(codes.max() + 1, len(t["cols"])))
        for j, c in enumerate(t["cols"]):
            y = y + B[codes, j] * (1.0 if c == "1" else df[c])
    df["y"] = y * d["yscale"]
    idx = None
    if d["index"] == "shift":
        idx = np.arange(n) + 100
    elif d["index"] == "str":
        idx = ["r%d" % i for i in range(n)]
    return pd.DataFrame(df, index=idx)


def formula(d):
    fe = "+".join(c for c in d["fe"]) if d["fe"][0] == "1" else "0+" + "+".join(d["fe"])
    return "y~" + fe + "".join("+(%s|%s)" % (t["form"], t["group"]) for t in d["terms"])


def vech_sizes(d):
    return [len(t["cols"]) * (len(t["cols"]) + 1) // 2 for t in d["terms"]]


def invech_ref(v):
    m = int(round((np.sqrt(8 * len(v) + 1) - 1) / 2))
    S = np.zeros((m, m))
    k = 0
    for j in range(m):
        for i in range(j, m):
            S[i, j] = S[j, i] = v[k]
            k += 1
    return S


def vech_ref(S):
    m = S.shape[0]
    return np.array([S[i, j] for j in range(m) for i in range(j, m)])


def gen_theta(r, d, spread=1.0):
    """admissible theta: positive definite blocks, positive residual variance"""
    th = []
    for t in d["terms"]:
        m = len(t["cols"])
        rg = np.random.default_rng(r.randrange(1 << 30))
        A = rg.normal(size=(m, m + 2))
        S = A @ A.T / (m + 2) + 0.05 * np.eye(m)
        S *= 10 ** r.uniform(-spread, spread)
        th.extend(vech_ref(S).tolist())
    th.append(10 ** r.uniform(-spread, spread))
    s = d["yscale"] ** 2
    return [float("%.9g" % (v * s)) for v in th]


def gen_bad_theta(r, d):
    th = gen_theta(r, d)
    kind = r.choice(["negvar", "indef", "negres", "nan", "zero"])
    if kind == "negvar":
        th[0] = -abs(th[0])
    elif kind == "indef":
        k = 0
        for t in d["terms"]:
            m = len(t["cols"])
            if m > 1:
                th[k + 1] = 5.0 * (abs(th[k]) + abs(th[k + m]))
            k += m * (m + 1) // 2
    elif kind == "negres":
        th[-1] = -th[-1]
    elif kind == "nan":
        th[r.randrange(len(th))] = float("nan")
    else:
        th[r.randrange(len(th))] = 0.0
    return th


class Dense:
    def __init__(self, d, df=None, level_order="appearance", a_covs=None):
        self.d = d
        df = build_frame(d) if df is None else df
        n = len(df)
        col = lambda c: np.ones(n) if c == "1" else np.asarray(df[c], dtype=float)
        self.X = np.column_stack([col(c) for c in d["fe"]])
        self.y = np.asarray(df["y"], dtype=float)
        self.n, self.p = self.X.shape
        Zs, self.nlev, self.nrv = [], [], []
        for t in d["terms"]:
            g = np.asarray(df[t["group"]])
            codes, lev = pd.factorize(g, sort=(level_order == "sorted"))
            m, L = len(t["cols"]), len(lev)
            Z = np.zeros((n, m * L))
            for j, c in enumerate(t["cols"]):
                Z[np.arange(n), codes * m + j] = col(c)
            Zs.append(Z)
            self.nlev.append(L)
            self.nrv.append(m)
        self.Zs = Zs
        self.Z = np.hstack(Zs)
        self.A = [np.eye(L) if a_covs is None or a_covs[k] is None else np.asarray(a_covs[k])
                  for k, L in enumerate(self.nlev)]
        self.sizes = vech_sizes(d)
        self.npar = sum(self.sizes) + 1
        # derivative matrices of V
        self.dV = []
        for k, Z in enumerate(Zs):
            m = self.nrv[k]
            for q in range(self.sizes[k]):
                e = np.zeros(self.sizes[k])
                e[q] = 1.0
                self.dV.append(Z @ np.kron(self.A[k], invech_ref(e)) @ Z.T)
        self.dV.append(np.eye(n))
        self._cache = {}

    def Gmat(self, th):
        bl, k0 = [], 0
        for k in range(len(self.Zs)):
            bl.append(np.kron(self.A[k], invech_ref(np.asarray(th[k0:k0 + self.sizes[k]]))))
            k0 += self.sizes[k]
        q = sum(b.shape[0] for b in bl)
        G = np.zeros((q, q))
        o = 0
        for b in bl:
            G[o:o + b.shape[0], o:o + b.shape[0]] = b
            o += b.shape[0]
        return G

    def at(self, th):
        key = tuple(th)
        if key in self._cache:
            return self._cache[key]
        th = np.asarray(th, dtype=float)
        X, y, Z = self.X, self.y, self.Z
        G = self.Gmat(th)
        V = Z @ G @ Z.T + th[-1] * np.eye(self.n)
        Lc = np.linalg.cholesky(V)
        Vi = np.linalg.inv(V)
        Vi = 0.5 * (Vi + Vi.T)
        XVX = X.T @ Vi @ X
        C = np.linalg.inv(XVX)
        b = C @ (X.T @ Vi @ y)
        P = Vi - Vi @ X @ C @ X.T @ Vi
        P = 0.5 * (P + P.T)
        o = dict(th=th, G=G, V=V, Vi=Vi, XVX=XVX, C=C, b=b, P=P, ldV=2 * np.sum(np.log(np.diag(Lc))),
                 ldX=np.linalg.slogdet(XVX)[1], r=y - X @ b)
        o["Py"] = P @ y
        o["q"] = float(y @ o["Py"])
        o["u"] = G @ Z.T @ Vi @ o["r"]
        self._cache[key] = o
        return o

    def ll(self, th, reml):
        o = self.at(th)
        return o["ldV"] + o["q"] + (o["ldX"] if reml else 0.0)

    def ll_scale(self, th):
        o = self.at(th)
        return abs(o["ldV"]) + abs(o["q"]) + abs(o["ldX"]) + self.n

    def grad(self, th, reml):
        """gradient and a magnitude per component (size of the terms that cancel)"""
        o = self.at(th)
        M = o["P"] if reml else o["Vi"]
        g, s = [], []
        for dV in self.dV:
            t1 = float(np.sum(M * dV))
            t2 = float(o["Py"] @ dV @ o["Py"])
            g.append(t1 - t2)
            s.append(abs(t1) + abs(t2) + float(np.sum(np.abs(o["Vi"] * dV))))
        th = np.asarray(th)
        s[-1] += self.n / th[-1] + o["q"] / th[-1] + float(np.abs(th[:-1]) @ np.array(s[:-1])) / th[-1]
        return np.array(g), np.array(s)

    def hess(self, th, reml):
        o = self.at(th)
        M = o["P"] if reml else o["Vi"]
        K = [M @ dV for dV in self.dV]
        KV = [o["Vi"] @ dV for dV in self.dV]
        w = [dV @ o["Py"] for dV in self.dV]
        k = len(K)
        H = np.zeros((k, k))
        S = np.zeros((k, k))
        for i in range(k):
            for j in range(k):
                a = float(np.sum(K[i] * K[j].T))
                c = 2 * float(w[i] @ o["P"] @ w[j])
                H[i, j] = c - a
                S[i, j] = abs(a) + abs(c) + abs(float(np.sum(KV[i] * KV[j].T)))
        return H, S
