"""Two-sphere lubrication resistance: axisymmetric tensors about the line of
centres (Kim & Karrila ch. 7 / 11), condensed by the orthonormal stresslet basis.

Scalars are supplied by the caller: sc(name, gamma) with name in ORDER and gamma
0 (self) or 1 (other)."""
import numpy as np
from . import ring
from .ring import SR
from .spec_far import EPS, basis, basis_np

ORDER = ["XA", "YA", "YB", "XC", "YC", "XG", "YG", "YH", "XM", "YM", "ZM"]
D3 = range(3)


def tensors(sc, g, d, a, pi, zero, third, half):
    """Resistance of sphere alpha (radius a) to the motion of sphere beta, d from
    alpha to beta (the self term, g = 0, uses the same d).  Generic arithmetic."""
    k = lambda i, j: 1 if i == j else 0
    e = lambda i, j, l: EPS.get((i, j, l), 0)
    dd = [[d[i] * d[j] for j in D3] for i in D3]
    s = {n: sc(n, g) for n in ORDER}
    A = [[6 * pi * a * (s["XA"] * dd[i][j] + s["YA"] * (k(i, j) - dd[i][j])) for j in D3] for i in D3]
    C = [[8 * pi * a ** 3 * (s["XC"] * dd[i][j] + s["YC"] * (k(i, j) - dd[i][j])) for j in D3] for i in D3]
    B = [[4 * pi * a ** 2 * s["YB"] * sum((d[l] * e(i, j, l) for l in D3 if e(i, j, l)), zero) for j in D3] for i in D3]
    G = [[[4 * pi * a ** 2 * (s["XG"] * (dd[i][j] - third * k(i, j)) * d[l]
                              + s["YG"] * (d[i] * k(j, l) + d[j] * k(i, l) - 2 * dd[i][j] * d[l])) for l in D3] for j in D3] for i in D3]
    H = [[[8 * pi * a ** 3 * s["YH"] * (sum((d[m] * d[j] * e(i, l, m) for m in D3 if e(i, l, m)), zero)
                                        + sum((d[m] * d[i] * e(j, l, m) for m in D3 if e(j, l, m)), zero)) for l in D3] for j in D3] for i in D3]

    def m_(i, j, p, q):
        x = (dd[i][j] - third * k(i, j)) * (dd[p][q] - third * k(p, q)) * 3 * half
        y = half * (d[i] * d[p] * k(j, q) + d[j] * d[p] * k(i, q) + d[i] * d[q] * k(j, p) + d[j] * d[q] * k(i, p) - 4 * dd[i][j] * dd[p][q])
        # transverse part: pp' symmetric traceless projection in the plane normal to d
        t = lambda u, v: k(u, v) - dd[u][v]
        z = half * (t(i, p) * t(j, q) + t(j, p) * t(i, q) - t(i, j) * t(p, q))
        return s["XM"] * x + s["YM"] * y + s["ZM"] * z
    M = [[[[20 * pi * a ** 3 * third * m_(i, j, p, q) for q in D3] for p in D3] for j in D3] for i in D3]
    return A, B, C, G, H, M


def condensed(sc, g, d, a, sym=True):
    """dict: A, B (torque <- velocity), C, G (stresslet <- velocity), H (stresslet
    <- angular velocity), M."""
    if sym:
        A, B, C, G, H, M = tensors(sc, g, d, a, ring.PI, SR.const(0), SR.const(1) / 3, SR.const(1) / 2)
        E = basis()
        nz = [[(i, j, m[i][j]) for i in D3 for j in D3 if m[i][j].t] for m in E]
        z = SR.const(0)
        Gc = [[sum((G[i][j][l] * v for i, j, v in nz[m]), z) for l in D3] for m in range(5)]
        Hc = [[sum((H[i][j][l] * v for i, j, v in nz[m]), z) for l in D3] for m in range(5)]
        Mc = [[sum((M[i][j][p][q] * v * w for i, j, v in nz[m] for p, q, w in nz[n]), z) for n in range(5)] for m in range(5)]
        return dict(A=A, B=B, C=C, G=Gc, H=Hc, M=Mc)
    A, B, C, G, H, M = [np.array(x, float) for x in tensors(sc, g, d, a, np.pi, 0.0, 1 / 3., .5)]
    E = basis_np()
    return dict(A=A, B=B, C=C, G=np.einsum("mij,ijl->ml", E, G), H=np.einsum("mij,ijl->ml", E, H), M=np.einsum("mij,ijpq,npq->mn", E, M, E))


def T(m):
    return m.T if isinstance(m, np.ndarray) else [list(r) for r in zip(*m)]


def full11(b, bt):
    """11x11 rows (F,T,S) of alpha, columns (U,W,E) of beta from b = alpha<-beta
    and bt = beta<-alpha (reciprocal theorem)."""
    blk = [[b["A"], T(bt["B"]), T(bt["G"])], [b["B"], b["C"], T(bt["H"])], [b["G"], b["H"], b["M"]]]
    out = []
    for row in blk:
        for i in range(len(row[0])):
            out.append([x for m in row for x in m[i]])
    return out


def assemble(ns, nd, pairs, sizes, scal, sym=True, bb=True, mu=1):
    """Sum over near pairs.  pairs: list (u, v, d(u->v), key) with u < v;
    scal(lam_from, key) -> sc: scalars for ratio a_other/a_self."""
    n = 11 * ns + 6 * nd
    nb = ns + 2 * nd
    zero = SR.const(0) if sym else 0.0
    out = np.empty((n, n), dtype=object if sym else float)
    out[:] = zero

    def rows(b):
        if b < ns:
            return list(range(3 * b, 3 * b + 3)) + list(range(3 * ns + 3 * b, 3 * ns + 3 * b + 3)) + list(range(6 * ns + 5 * b, 6 * ns + 5 * b + 5))
        return [11 * ns + 3 * (b - ns) + i for i in range(3)]

    def add(ru, rv, m):
        for i, r in enumerate(ru):
            for j, c in enumerate(rv):
                out[r, c] = out[r, c] + m[i][j]
    for u, v, d, key in pairs:
        md = [-x for x in d]
        for me, other, dv in ((u, v, d), (v, u, md)):
            s0 = condensed(scal(me, other, key), 0, dv, sizes[me], sym)
            m = full11(s0, s0)
            r = rows(me)
            add(r, r, m)
        b = condensed(scal(u, v, key), 1, d, sizes[u], sym)
        bt = condensed(scal(v, u, key), 1, md, sizes[v], sym)
        m = full11(b, bt)
        ru, rv = rows(u), rows(v)
        add(ru, rv, m)
        add(rv, ru, T(np.array(m, dtype=object)) if sym else np.array(m).T)
    if nd:
        o, k = 11 * ns, 3 * nd
        top, bot = out[o:o + k].copy(), out[o + k:].copy()
        out[o:o + k], out[o + k:] = top + bot, bot - top
        l, r = out[:, o:o + k].copy(), out[:, o + k:].copy()
        out[:, o:o + k], out[:, o + k:] = l + r, r - l
    return out * mu


class Tables:
    """Numeric scalars from the shipped tables (own linear interpolation)."""

    def __init__(self, xyz, sr, lams):
        self.xyz, self.sr, self.lams = np.asarray(xyz), np.asarray(sr), np.asarray(lams)

    def interp(self, col, s):
        x = self.sr
        if s <= x[0]:
            return col[0]
        if s >= x[-1]:
            return col[-1]
        k = int(np.searchsorted(x, s, side="right")) - 1
        return col[k] + (col[k + 1] - col[k]) * (s - x[k]) / (x[k + 1] - x[k])

    def sc(self, lam, s):
        li = int(np.argmin(np.abs(np.log(self.lams / lam))))
        if not np.isclose(self.lams[li], lam):
            raise ValueError("ratio not tabulated")
        return lambda name, g: self.interp(self.xyz[ORDER.index(name), g, :, li], s)
