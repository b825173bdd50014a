"""Periodic far-field couplings by Ewald summation, independent of the code under test.

The Oseen tensor is (delta_ij lap - d_i d_j) r; r = r erfc(lambda r) + r erf(lambda r)
splits it.  The couplings of either half are the Faxen-law couplings (spec_far.faxen)
of that half.  Real-space half: derivatives by the chain rule in x, s, E = erfc(lambda s),
G = exp(-lambda^2 s^2).  Wave-space half: a derivative multiplies the Fourier transform
by i k, and the transform of r erf(lambda r) is
RR(k) = -8 pi/k^4 (1 + k^2/4 lambda^2 + k^4/8 lambda^4) exp(-k^2/4 lambda^2) (see lemma)."""
import math
import numpy as np
from fractions import Fraction
from . import ring, spec_far
from .ring import SR

gid = lambda x: next(iter(x.gens()))


def pd(e, g):
    """Partial derivative with respect to one (free) generator."""
    out = {}
    for m, c in e.t.items():
        d = dict(m)
        k = d.get(g, 0)
        if k:
            d[g] = k - 1
            if not d[g]:
                del d[g]
            key = tuple(sorted(d.items()))
            out[key] = out.get(key, 0) + c * k
    return SR(out)


def flatten(blocks):
    return [blocks[k][i][j] for k, (n, m) in spec_far.SHAPES.items() for i in range(n) for j in range(m)]


def unpack(v):
    out, p = {}, 0
    for k, (n, m) in spec_far.SHAPES.items():
        out[k] = np.array(v[p:p + n * m], dtype=float).reshape(n, m)
        p += n * m
    return out


class PerSpec:
    def __init__(self):
        f = ring.free
        self.X = [f("PX%d" % i) for i in range(3)]
        self.S, self.L = f("PS", pos=True), f("PL", pos=True)
        self.E, self.G = f("PE"), f("PG")
        self.a1, self.a2, self.mu = (f(n, pos=True) for n in ("PA1", "PA2", "PMU"))
        self.c = SR.const(1) / (8 * ring.PI * self.mu)
        self.sp = ring.sqrt(ring.PI)
        # real-space half
        self.J = self.oseen(self.S * self.E, self.D)
        self.real_t = spec_far.faxen(self.J, self.D, self.a1, self.a2, self.c, Fraction(1, 6))
        self.real_b = spec_far.condense(*self.real_t)
        self._fr = ring.compile_fn(flatten(self.real_b), self.X + [self.S, self.E, self.G, self.L, self.a1, self.a2, self.mu])
        # wave-space half
        self.K = [f("PK%d" % i) for i in range(3)]
        self.RR, self.I = f("PRR"), f("PI_")
        k2 = sum((x * x for x in self.K), SR.const(0))
        Jk = [[-((k2 if i == j else SR.const(0)) - self.K[i] * self.K[j]) * self.RR for j in range(3)] for i in range(3)]
        self.wave_t = spec_far.faxen(Jk, lambda e, k: e * self.I * self.K[k], self.a1, self.a2, self.c, Fraction(1, 6))
        self.wave_b = spec_far.condense(*self.wave_t)
        parts = [self.split(e) for e in flatten(self.wave_b)]
        self._fk = ring.compile_fn([p[0] for p in parts] + [p[1] for p in parts], self.K + [self.RR, self.a1, self.a2, self.mu])
        # wave-space half at r = 0, from the power series of r erf(lambda r)
        L, sp, X = self.L, self.sp, self.X
        r2 = sum((x * x for x in X), SR.const(0))
        ser = 2 / sp * (L * r2 - L ** 3 * r2 * r2 / 3 + L ** 5 * r2 ** 3 / 10 - L ** 7 * r2 ** 4 / 42)
        dx = lambda e, k: pd(e, gid(X[k]))
        zero = {gid(x): SR.const(0) for x in X}
        self.zero_t = spec_far.faxen(self.oseen(ser, dx), dx, self.a1, self.a2, self.c, Fraction(1, 6))
        b0 = spec_far.condense(*self.zero_t)
        self.zero_b = {k: [[x.subs(zero) for x in row] for row in v] for k, v in b0.items()}
        self.zero_x = zero
        self._f0 = ring.compile_fn(flatten(self.zero_b), [L, self.a1, self.a2, self.mu])

    def D(self, e, k):
        X, S, L = self.X[k], self.S, self.L
        return (pd(e, gid(X)) + X / S * pd(e, gid(S)) - 2 * L / self.sp * self.G * X / S * pd(e, gid(self.E))
                - 2 * L * L * X * self.G * pd(e, gid(self.G)))

    @staticmethod
    def oseen(phi, D):
        lap = sum((D(D(phi, k), k) for k in range(3)), SR.const(0))
        return [[(lap if i == j else SR.const(0)) - D(D(phi, i), j) for j in range(3)] for i in range(3)]

    def split(self, e):
        """Real and imaginary parts."""
        re, im, g = {}, {}, gid(self.I)
        for m, c in SR.lift(e).t.items():
            d = dict(m)
            p = d.pop(g, 0)
            t = tuple(sorted(d.items()))
            h = re if p % 2 == 0 else im
            h[t] = h.get(t, 0) + (c if p % 4 in (0, 1) else -c)
        return SR(re), SR(im)

    # float versions
    def num_real(self, r, lam, a1, a2, mu):
        s = math.sqrt(float(np.dot(r, r)))
        return unpack(self._fr(*[float(x) for x in r], s, math.erfc(lam * s), math.exp(-lam * lam * s * s), lam, a1, a2, mu))

    def num_wave(self, k, lam, a1, a2, mu):
        k2 = float(np.dot(k, k))
        rr = -8 * math.pi / k2 ** 2 * (1 + k2 / (4 * lam * lam) + k2 * k2 / (8 * lam ** 4)) * math.exp(-k2 / (4 * lam * lam))
        v = self._fk(*[float(x) for x in k], rr, a1, a2, mu)
        n = len(v) // 2
        return unpack(v[:n]), unpack(v[n:])

    def num_pair(self, r, basis, lam, a1, a2, mu, same=False, eps=1e-17):
        """Coupling of two spheres and all their images (rows of basis span the
        lattice); summed until the neglected terms are below eps."""
        basis = np.asarray(basis, float)
        r = np.asarray(r, float)
        V = abs(np.linalg.det(basis))
        rec = 2 * np.pi * np.linalg.inv(basis).T
        out = {k: np.zeros(v) for k, v in spec_far.SHAPES.items()}
        cut = math.sqrt(-math.log(eps)) + 1
        for X in lattice(basis, cut / lam + np.linalg.norm(r)):
            x = r + X
            d = np.linalg.norm(x)
            if d > cut / lam or (same and d < 1e-9):
                continue
            t = self.num_real(x, lam, a1, a2, mu)
            for k in out:
                out[k] += t[k]
        for K in lattice(rec, cut * 2 * lam):
            if not K.any():
                continue
            re, im = self.num_wave(K, lam, a1, a2, mu)
            co, si = math.cos(K @ r), math.sin(K @ r)
            for k in out:
                out[k] += (co * re[k] - si * im[k]) / V
        if same:
            s, z = spec_far.self_blocks_np(a1, mu), unpack(self._f0(lam, a1, a1, mu))
            for k in out:
                out[k] += s[k] - z[k]
        return out


def lattice(basis, radius):
    """All lattice vectors no longer than radius (rows of basis span the lattice)."""
    inv = np.linalg.inv(basis)
    n = [int(math.floor(radius * np.linalg.norm(inv[:, i]))) + 1 for i in range(3)]
    g = np.array([[a, b, c] for a in range(-n[0], n[0] + 1) for b in range(-n[1], n[1] + 1) for c in range(-n[2], n[2] + 1)])
    v = g @ basis
    return [x for x in v if x @ x <= radius * radius * (1 + 1e-12)]


def lemma(ps):
    """Differences that vanish iff lap lap (r erf(lambda r)) is -8 pi times the operator
    (1 - lap/4 lambda^2 + lap^2/8 lambda^4) on the unit Gaussian (lambda/sqrt pi)^3 exp(-lambda^2 r^2),
    whose transform is exp(-k^2/4 lambda^2)."""
    lap = lambda e: sum((ps.D(ps.D(e, k), k) for k in range(3)), SR.const(0))
    phi = ps.S * (1 - ps.E)
    L = ps.L
    g = L ** 3 / ps.sp ** 3 * ps.G
    rhs = -8 * ring.PI * (g - lap(g) / (4 * L * L) + lap(lap(g)) / (8 * L ** 4))
    return lap(lap(phi)) - rhs
