"""Independent reference for factor analysis: everything follows from Sigma(theta) = L Phi L' + Psi and the definition of the criteria.
Derivatives are complex steps (exact to rounding); second derivatives of the bilinear Sigma are central differences of complex steps,
which are exact for the quadratic first derivative."""
import numpy as np

GCF = dict(varimax=lambda p, m: (0.0, (p - 1) / p, 1 / p, -1.0), quartimax=lambda p, m: (0.0, 1.0, 1.0, -1.0),
           equamax=lambda p, m: (0.0, 1 - m / (2.0 * p), m / (2.0 * p), -1.0),
           parsimax=lambda p, m: (0.0, 1 - (m - 1.0) / (p + m - 2.0), (m - 1.0) / (p + m - 2.0), -1.0))


def lower(m):
    """row and column of the strictly lower triangle, column by column"""
    return zip(*[(i, j) for j in range(m) for i in range(j + 1, m)]) if m > 1 else ((), ())


def unpack(t, p, m, kind="full"):
    L = t[: p * m].reshape(m, p).T
    Phi = np.eye(m).astype(t.dtype)
    k = p * m
    if kind == "full":
        for i, j in zip(*lower(m)):
            Phi[i, j] = Phi[j, i] = t[k]
            k += 1
    psi = t[k:k + p]
    return L, Phi, (np.exp(psi) if kind == "log" else psi)


def sigma(t, p, m, kind="full"):
    L, Phi, psi = unpack(t, p, m, kind)
    return L @ Phi @ L.T + np.diag(psi)


def cstep(f, x):
    """derivative of f along every coordinate of x; first axis = coordinate"""
    x = np.asarray(x, float)
    out = []
    for k in range(len(x)):
        z = x.astype(complex)
        z[k] += 1e-30j
        out.append(np.imag(f(z)) / 1e-30)
    return np.array(out)


def d2sigma(t, p, m, kind):
    n = len(t)
    o = np.zeros((n, n, p, p))
    k0 = p * m + (m * (m - 1) // 2 if kind == "full" else 0)
    for k in range(n):
        if k >= k0:
            if kind == "log":
                o[k, k, k - k0, k - k0] = np.exp(t[k])
            continue
        e = np.zeros(n)
        e[k] = 0.5
        f = lambda z: sigma(z, p, m, kind)
        o[k] = cstep(f, t + e) - cstep(f, t - e)
        o[k][k0:] = 0
    return o


class Fit:
    """F, gradient, Hessian and friends at one point"""

    def __init__(self, t, S, m, kind="full"):
        p = len(S)
        self.p, self.m, self.S, self.t = p, m, S, np.asarray(t, float)
        self.Sigma = sigma(self.t, p, m, kind)
        self.V = np.linalg.inv(self.Sigma)
        self.F = np.linalg.slogdet(self.Sigma)[1] + np.sum(self.V * S)
        self.d = cstep(lambda z: sigma(z, p, m, kind), self.t)
        self.kind = kind

    @property
    def grad(self):
        R = self.V - self.V @ self.S @ self.V
        return np.einsum("ab,kab->k", R, self.d)

    @property
    def hess(self):
        V, d = self.V, self.d
        R = V - V @ self.S @ V
        Vd = V @ d
        VS = V @ self.S
        H = -np.einsum("kab,lba->kl", Vd, Vd) + np.einsum("ab,klab->kl", R, d2sigma(self.t, self.p, self.m, self.kind))
        A = np.einsum("kab,lbc,ca->kl", Vd, Vd, VS)
        return H + A + A.T

    @property
    def M(self):
        return self.V @ self.d @ self.V

    def score_jacobian(self):
        """d gradient / d vech(S), S symmetric"""
        o = []
        for j in range(self.p):
            for i in range(j, self.p):
                E = np.zeros((self.p, self.p))
                E[i, j] = E[j, i] = 1.0
                o.append(-np.einsum("ab,kab->k", E, self.M))
        return np.array(o).T

    def meat(self, n):
        return 2.0 / n * np.einsum("kab,lba->kl", self.V @ self.d, self.V @ self.d)


def conc(psi, S, m):
    """concentrated discrepancy, gradient: eigenvalues of the scaled covariance"""
    s = 1 / np.sqrt(psi)
    u, W = np.linalg.eigh(S * s[:, None] * s)
    q = len(psi) - m
    f = np.sum(u[:q] - np.log(u[:q]) - 1)
    g = np.array([sum((1 - 1 / u[i]) * (-u[i] * W[k, i] ** 2 / psi[k]) for i in range(q)) for k in range(len(psi))])
    return f, g, u


def conc_hess(psi, S, m):
    n = len(psi)
    H = np.zeros((n, n))
    for k in range(n):
        h = 1e-3 * psi[k]
        e = np.zeros(n)
        e[k] = h
        D = lambda c: (conc(psi + c * e, S, m)[1] - conc(psi - c * e, S, m)[1]) / (2 * c * h)
        H[k] = (4 * D(0.5) - D(1.0)) / 3
    return (H + H.T) / 2


# ------------------------------------------------------------------ rotation
class Crit:
    def __init__(self, spec, p, m):
        self.spec, self.p, self.m = spec, p, m

    def Q(self, L):
        s = self.spec
        if s["crit"] == "target":
            return 0.5 * np.sum(s["W"] * (L - s["H"]) ** 2)
        k1, k2, k3, k4 = GCF[s["crit"]](self.p, self.m)
        B = L * L
        return 0.25 * (k1 * B.sum() ** 2 + k2 * np.sum(B.sum(1) ** 2) + k3 * np.sum(B.sum(0) ** 2) + k4 * np.sum(B ** 2))

    def dQ(self, L):
        p, m = self.p, self.m
        if np.iscomplexobj(L):                                   # needed under a complex step: definition differentiated by hand
            s = self.spec
            if s["crit"] == "target":
                return s["W"] * (L - s["H"])
            k1, k2, k3, k4 = GCF[s["crit"]](p, m)
            B = L * L
            return (k1 * B.sum() + k2 * B.sum(1)[:, None] + k3 * B.sum(0)[None] + k4 * B) * L
        return cstep(lambda z: self.Q(z.reshape(m, p).T), L.T.reshape(-1)).reshape(m, p).T

    def constraint(self, L, Phi, oblique):
        D = L.T @ self.dQ(L)
        if not oblique:
            D = D - D.T
            r, c = lower(self.m)
            return D[list(r), list(c)]
        D = D @ np.linalg.inv(Phi)
        return np.array([D[i, j] for j in range(self.m) for i in range(self.m) if i != j])


def canonical(L, psi):
    D = L.T @ (L / psi[:, None])
    r, c = lower(L.shape[1])
    return D[list(r), list(c)]


def restricted_bread(H, C, free):
    """inverse of the Hessian on the tangent space of the constraints"""
    H, C = H[np.ix_(free, free)], C[:, free]
    if not len(C):
        return np.linalg.inv(H)
    N = np.linalg.svd(C)[2][np.linalg.matrix_rank(C):].T
    return N @ np.linalg.solve(N.T @ H @ N, N.T)
