"""Faxen-law far-field couplings, built from derivatives of the Oseen tensor.

Independent of the code under test: everything is obtained by differentiating
J_ij = delta_ij/r + x_i x_j/r^3 and applying the multipole/Faxen operators."""
import math
import numpy as np
from fractions import Fraction
from . import ring
from .ring import SR


def eps(i, j, k):
    return (i - j) * (j - k) * (k - i) // 2 * (1 if True else 0)


EPS = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}


def basis():
    """Orthonormal basis of symmetric traceless tensors in the stored order."""
    s3, s2 = ring.sqrt(SR.const(3)), ring.sqrt(SR.const(2))
    z = SR.const(0)

    def sym(i, j):
        m = [[z] * 3 for _ in range(3)]
        m[i][j] = m[j][i] = s2 / 2
        return m

    def dg(a, b, c):
        return [[a, z, z], [z, b, z], [z, z, c]]
    p, q, t = (s3 + 1) / 2 - s3 / 3, (s3 - 1) / 2 - s3 / 3, -s3 / 3
    return [dg(p, q, t), sym(0, 1), dg(q, p, t), sym(0, 2), sym(1, 2)]


def basis_np():
    return np.array([[[float(x) for x in r] for r in m] for m in basis()])


def far_tensors(X, a1, a2, mu, green=None):
    """Uncondensed couplings of sphere 1 (radius a1) to sphere 2; X = x1 - x2
    (three free generators).  `green(X)` gives the 3x3 kernel J."""
    d = range(3)
    s = ring.sqrt(X[0] * X[0] + X[1] * X[1] + X[2] * X[2])
    if green is None:
        J = [[(SR.const(1) / s if i == j else SR.const(0)) + X[i] * X[j] / s ** 3 for j in d] for i in d]
    else:
        J = green(X)
    return faxen(J, lambda e, k: e.diff(X[k]), a1, a2, SR.const(1) / (8 * ring.PI * mu))


def faxen(J, D, a1, a2, c, hlap=Fraction(1, 10)):
    """hlap: factor on the Laplacian in H (immaterial for the full Oseen tensor, whose
    Laplacian has no curl away from the origin)."""
    d = range(3)

    def lap(e):
        t = SR.const(0)
        for k in d:
            t = t + D(D(e, k), k)
        return t
    h = SR.const(Fraction(1, 2))
    LJ = [[lap(J[i][j]) for j in d] for i in d]
    # stresslet and rotlet flows of a point singularity at 2
    DJ = [[[D(J[i][j], k) for k in d] for j in d] for i in d]            # d_k J_ij
    DLJ = [[[D(LJ[i][j], k) for k in d] for j in d] for i in d]
    K = [[[h * (DJ[i][j][k] + DJ[i][k][j]) for k in d] for j in d] for i in d]
    LK = [[[h * (DLJ[i][j][k] + DLJ[i][k][j]) for k in d] for j in d] for i in d]
    # torque T on the fluid: antisymmetric dipole, u_i = -d_k J_ij * (1/2) eps_{k j l}... -> R_ij T_j
    R = [[sum((DJ[i][m][k] * (h * EPS.get((k, m, j), 0)) * -1 for m in d for k in d if EPS.get((k, m, j), 0)), SR.const(0))
          for j in d] for i in d]
    LR = [[sum((DLJ[i][m][k] * (h * EPS.get((k, m, j), 0)) * -1 for m in d for k in d if EPS.get((k, m, j), 0)), SR.const(0))
           for j in d] for i in d]
    f6 = SR.const(Fraction(1, 6))
    f10 = SR.const(Fraction(1, 10))
    A = [[c * (J[i][j] + (a1 ** 2 + a2 ** 2) * f6 * LJ[i][j]) for j in d] for i in d]
    B = [[c * (R[i][j] + a1 ** 2 * f6 * LR[i][j]) for j in d] for i in d]
    S3 = [[[-(c * (K[i][j][k] + (a1 ** 2 * f6 + a2 ** 2 * f10) * LK[i][j][k])) for k in d] for j in d] for i in d]
    curl = lambda u: [h * sum((D(u[m], l) * EPS[(i, l, m)] for l in d for m in d if (i, l, m) in EPS), SR.const(0)) for i in d]
    C = [[None] * 3 for _ in d]
    for j in d:
        w = curl([c * R[i][j] for i in d])
        for i in d:
            C[i][j] = w[i]
    H = [[[None] * 3 for _ in d] for _ in d]
    for j in d:
        for k in d:
            w = curl([-(c * (K[i][j][k] + a2 ** 2 * SR.const(hlap) * LK[i][j][k])) for i in d])
            for i in d:
                H[i][j][k] = w[i]
    M = [[[[None] * 3 for _ in d] for _ in d] for _ in d]
    for k in d:
        for l in d:
            u = [-(c * (K[i][k][l] + (a1 ** 2 + a2 ** 2) * f10 * LK[i][k][l])) for i in d]
            g = [[D(u[i], j) for j in d] for i in d]
            for i in d:
                for j in d:
                    M[i][j][k][l] = h * (g[i][j] + g[j][i])
    return A, B, S3, C, H, M


def condense(A, B, G, C, H, M):
    d = range(3)
    e = basis()
    z = SR.const(0)
    nz = [[(i, j, m[i][j]) for i in d for j in d if m[i][j].t] for m in e]
    Gc = [[sum((G[i][j][k] * v for j, k, v in nz[m]), z) for m in range(5)] for i in d]
    Hc = [[sum((H[i][j][k] * v for j, k, v in nz[m]), z) for m in range(5)] for i in d]
    Mc = [[sum((M[i][j][k][l] * v * w for i, j, v in nz[m] for k, l, w in nz[n]), z) for n in range(5)] for m in range(5)]
    return dict(A=A, B=B, G=Gc, C=C, H=Hc, M=Mc)


SHAPES = dict(A=(3, 3), B=(3, 3), G=(3, 5), C=(3, 3), H=(3, 5), M=(5, 5))


class FarSpec:
    """Generic blocks in symbols X0..X2, a1, a2, mu, plus a float version."""

    def __init__(self):
        self.X = [ring.free("X%d" % i) for i in range(3)]
        self.a1, self.a2, self.mu = (ring.free(n, pos=True) for n in ("A1", "A2", "MU"))
        self.s = ring.sqrt(self.X[0] ** 2 + self.X[1] ** 2 + self.X[2] ** 2)
        self.b = condense(*far_tensors(self.X, self.a1, self.a2, self.mu))
        ex = []
        for k, (n, m) in SHAPES.items():
            ex += [self.b[k][i][j] for i in range(n) for j in range(m)]
        self._f = ring.compile_fn(ex, self.X + [self.a1, self.a2, self.mu])

    def at(self, r, s, a1, a2, mu):
        """Blocks with r, s (= |r|) substituted."""
        g = lambda x: next(iter(x.gens()))
        mp = {g(self.X[i]): r[i] for i in range(3)}
        mp.update({g(self.s): s, g(self.a1): a1, g(self.a2): a2, g(self.mu): mu})
        memo = {}
        return {k: [[ring._subs(x, mp, memo) for x in row] for row in v] for k, v in self.b.items()}

    def num(self, r, a1, a2, mu):
        v = self._f(float(r[0]), float(r[1]), float(r[2]), float(a1), float(a2), float(mu))
        out, p = {}, 0
        for k, (n, m) in SHAPES.items():
            out[k] = np.array(v[p:p + n * m]).reshape(n, m)
            p += n * m
        return out

    def num_pair(self, x1, x2, a1, a2, mu, same):
        """Blocks for bead 1 acted on by bead 2 with the documented clamp."""
        if same:
            return self_blocks_np(a1, mu)
        r = np.asarray(x1, float) - np.asarray(x2, float)
        s = math.sqrt(float(r @ r))
        lim = 2.001 * (a1 + a2) / 2
        if s > 1e-8 and s < lim:
            r = r * (lim / s)
        return self.num(r, a1, a2, mu)


def self_blocks_np(a, mu):
    return dict(A=np.eye(3) / (6 * math.pi * mu * a), B=np.zeros((3, 3)), G=np.zeros((3, 5)),
                C=np.eye(3) / (8 * math.pi * mu * a ** 3), H=np.zeros((3, 5)),
                M=np.eye(5) / (20.0 / 3 * math.pi * mu * a ** 3))


def layout(ns, nd):
    """Row ranges: (kind, particle) -> start; kinds U,W,E (spheres), 4, 5 (dumbbells)."""
    st = {}
    for i in range(ns):
        st["U", i] = 3 * i
        st["W", i] = 3 * ns + 3 * i
        st["E", i] = 6 * ns + 5 * i
    for i in range(nd):
        st["4", i] = 11 * ns + 3 * i
        st["5", i] = 11 * ns + 3 * nd + 3 * i
    return st, 11 * ns + 6 * nd


def assemble_np(ns, nd, pair, beadbead=True, change=True):
    """Full matrix; pair(u, v) -> blocks of bead u acted on by bead v."""
    st, n = layout(ns, nd)
    out = np.zeros((n, n))
    nb = ns + 2 * nd

    def where(b):
        if b < ns:
            return "S", b
        if b < ns + nd:
            return "4", b - ns
        return "5", b - ns - nd
    for u in range(nb):
        for v in range(nb):
            ku, iu = where(u)
            kv, iv = where(v)
            if ku != "S" and kv != "S" and not beadbead and u != v:
                continue
            b = pair(u, v)
            bt = pair(v, u)
            if ku == "S" and kv == "S":
                rows = [("U", 3), ("W", 3), ("E", 5)]
                blk = [[b["A"], b["B"], b["G"]], [bt["B"].T, b["C"], b["H"]], [bt["G"].T, bt["H"].T, b["M"]]]
                for p, (kr, h) in enumerate(rows):
                    for q, (kc, w) in enumerate(rows):
                        r0, c0 = st[kr, iu], st[kc, iv]
                        out[r0:r0 + h, c0:c0 + w] = blk[p][q]
            elif ku == "S":
                c0 = st[kv, iv]
                for kr, h, m in (("U", 3, b["A"]), ("W", 3, bt["B"].T), ("E", 5, bt["G"].T)):
                    r0 = st[kr, iu]
                    out[r0:r0 + h, c0:c0 + 3] = m
                    out[c0:c0 + 3, r0:r0 + h] = m.T
            elif kv != "S":
                out[st[ku, iu]:st[ku, iu] + 3, st[kv, iv]:st[kv, iv] + 3] = b["A"]
    if change and nd:
        L = np.eye(n)
        o = 11 * ns
        for i in range(3 * nd):
            a, b2 = o + i, o + 3 * nd + i
            L[a, a] = L[a, b2] = L[b2, b2] = 0.5
            L[b2, a] = -0.5
        out = L @ out @ L.T
    return out
