"""C16: periodic kernels are the Faxen couplings of the two halves of the Ewald split."""
import numpy as np
from vc import ring, sym, facade, common, spec_far, spec_per, per
from vc.ring import SR, Unsupported
from vc.common import oarr, gid

MODULE = "functions.generate_Minfinity_periodic"
D3 = range(3)
IDX = {2: [(i, j) for i in D3 for j in D3], 3: [(i, j, k) for i in D3 for j in D3 for k in D3],
       4: [(i, j, k, l) for i in D3 for j in D3 for k in D3 for l in D3]}
REAL = (("ar", 2), ("btr", 2), ("gtr", 3), ("cr", 2), ("htr", 3), ("mr", 4))          # order of spec_far.faxen
WAVE = (("aktilde", 2), ("btktilde", 2), ("gtktilde", 3), ("cktilde", 2), ("htktilde", 3), ("mktilde", 4))


def at(t, ix):
    for i in ix:
        t = t[i]
    return SR.lift(t)


class Sym:
    def __init__(self, ck, ps):
        self.ck, self.ps = ck, ps
        self.m = common.world().load(MODULE)
        f = lambda n: ring.free(n, pos=True)
        self.s, self.lam, self.a1, self.a2, self.mu = f("s"), f("lam"), f("a1"), f("a2"), f("mu")
        self.n = ring.unit_vector("n")
        self.c = 1 / (8 * ring.PI * self.mu)
        self.r = [self.s * x for x in self.n]
        self.tried = []
        ck.draw = lambda G, rng: rng.uniform(-.7, .7) if G.name[0] == "n" else rng.uniform(.3, 2)

    def conc(self, env, name):
        """Replay on the real code: two spheres in a periodic box."""
        if self.tried:
            return
        self.tried.append(name)
        v = lambda x: common.fval(x, env)
        a = sorted((min(v(self.a1), 3.), min(v(self.a2), 3.)))
        box = 6 * np.array([1.3, 1., 1.1]) * max(a[1], .5)
        r = np.array([v(x) for x in self.n]) * (a[0] + a[1]) * 1.2
        for rr in (r, r[::-1], np.array([-.3, .5, .8]) * (a[0] + a[1]) * 1.5):
            for sizes in ((a[0], a[1]), (a[1], a[0]), (a[1], a[1])):
                if not per.compare(self.ck, self.ps, common.posdata_np(sizes, [[1., 1., 1.], 1. - rr], [], [], []), np.zeros(3), box,
                                   min(max(v(self.mu), .1), 10.), None, None, "obligation %s" % name, "counterexample"):
                    return

    def run_all(self, what, fn):
        """fn() on every path; yields (name, difference) obligations."""
        seen = 0
        for ctx, (kind, res) in sym.explore(fn, limit=40, deadline=self.ck.deadline):
            self.ck.paths += 1
            if kind == "dead":
                self.ck.dead += 1
                continue
            if kind == "raise":
                st, env = sym.sample_path(ctx, [], self.ck.rng, draw=self.ck.draw)
                if st == "unsat":
                    self.ck.dead += 1
                    continue
                if st == "sat":
                    self.conc(env, what)
                raise Unsupported("%s: exception on a path: %r" % (what, res))
            seen += 1
            for name, d in res:
                self.ck.zero(name, d, ctx, self.conc)
        if not seen:
            raise Unsupported("vacuous: %s" % what)
        self.ck.covers += 1

    def subs_real(self, e, lam=None, memo=None):
        ps, lam = self.ps, self.lam if lam is None else lam
        mp = {gid(ps.X[i]): self.r[i] for i in D3}
        z = -(lam * self.s) ** 2
        mp.update({gid(ps.S): self.s, gid(ps.E): ring.func("erfc", lam * self.s), gid(ps.G): ring.func("exp", z), gid(ps.L): lam,
                   gid(ps.a1): self.a1, gid(ps.a2): self.a2, gid(ps.mu): self.mu})
        return ring._subs(e, mp, memo if memo is not None else {})

    def real_space(self):
        m = self.m
        for (name, rank), spec in zip(REAL, self.ps.real_t):
            memo = {}
            def fn():
                sym.assume(self.s > ring.literal("1e-8"))
                erfcs = m.generate_erfcs(self.s, self.lam)
                out = []
                for ix in IDX[rank]:
                    got = getattr(m, name)(oarr(self.r), self.s, self.a1, self.a2, *ix, erfcs, self.c, self.mu)
                    out.append(("real-space coupling %s%s" % (name, list(ix)), SR.lift(got) - self.subs_real(at(spec, ix), memo=memo)))
                return out
            self.run_all("real-space " + name, fn)
        self.ck.under_contract("generate_erfcs", "J", "R", "K", "D_J", "DD_J", "D_R", "D_K", "Lap_J", "DLap_J", "Lap_R", "Lap_K", "DDLap_J",
                               "DLap_K", "DD_rerfclr", "Lap_rerfclr", "DDD_rerfclr", "DLap_rerfclr", "DDDD_rerfclr", "DDLap_rerfclr",
                               "LapLap_rerfclr", "DDDLap_rerfclr", "DLapLap_rerfclr", "DDDDLap_rerfclr", "DDLapLap_rerfclr",
                               *[n for n, _ in REAL])

    def at_zero(self):
        m, a, mu = self.m, self.a1, self.mu
        z = SR.const(0)
        dl = lambda i, j: SR.const(int(i == j))
        val = {"ar": lambda i, j: dl(i, j) / (6 * ring.PI * mu * a), "btr": lambda *i: z, "gtr": lambda *i: z, "htr": lambda *i: z,
               "cr": lambda i, j: dl(i, j) / (8 * ring.PI * mu * a ** 3),
               "mr": lambda i, j, k, l: (dl(i, k) * dl(j, l) + dl(i, l) * dl(j, k) - SR.const(2) / 3 * dl(i, j) * dl(k, l)) * 3 / (40 * ring.PI * mu * a ** 3)}
        for name, rank in REAL:
            def fn():
                erfcs = m.generate_erfcs(z, self.lam)
                return [("coupling with itself %s%s" % (name, list(ix)),
                         SR.lift(getattr(m, name)(oarr([z] * 3), z, a, a, *ix, erfcs, self.c, mu)) - val[name](*ix)) for ix in IDX[rank]
                        # only the entries that the five-component form uses
                        if name != "mr" or not (ix[0] > ix[1] or ix[2] > ix[3] or 2 in (ix[0] * (ix[0] == ix[1]), ix[2] * (ix[2] == ix[3])))]
            self.run_all("itself " + name, fn)

    def wave_space(self):
        m, ps = self.m, self.ps
        RR = ring.free("RR")
        k = self.r           # a wave vector of any length s and direction n
        mp = {gid(ps.K[i]): k[i] for i in D3}
        mp.update({gid(ps.RR): RR, gid(ps.a1): self.a1, gid(ps.a2): self.a2, gid(ps.mu): self.mu})
        for (name, rank), spec in zip(WAVE, ps.wave_t):
            memo = {}
            odd = name in ("btktilde", "gtktilde")

            def fn():
                out = []
                for ix in IDX[rank]:
                    got = SR.lift(getattr(m, name)(oarr(k), self.s, self.a1, self.a2, *ix, RR, self.c))
                    re, im = [ring._subs(x, mp, memo) for x in ps.split(at(spec, ix))]
                    out.append(("wave-space coupling %s%s" % (name, list(ix)), got - (im if odd else re)))
                    out.append(("wave-space coupling %s%s is %s" % (name, list(ix), "imaginary" if odd else "real"), re if odd else im))
                return out
            self.run_all("wave-space " + name, fn)
        self.ck.under_contract("Jtilde", "D_Jtilde", "DD_Jtilde", "Lap_Jtilde", "D_Ktilde", "DLap_Ktilde", "D_Rtilde", *[n for n, _ in WAVE])

    def limit(self):
        """lambda -> 0: on the code, and on the specification."""
        m = self.m
        X, S = self.ps.X, self.ps.S
        far = spec_far.FarSpec()
        T = spec_far.far_tensors(far.X, far.a1, far.a2, far.mu)
        mp = {gid(far.X[i]): self.r[i] for i in D3}
        mp.update({gid(far.s): self.s, gid(far.a1): self.a1, gid(far.a2): self.a2, gid(far.mu): self.mu})
        memo = {}
        for (name, rank), spec in zip(REAL, T):
            def fn():
                sym.assume(self.s > ring.literal("1e-8"))
                erfcs = m.generate_erfcs(self.s, SR.const(0))
                return [("unbounded limit of %s%s" % (name, list(ix)),
                         SR.lift(getattr(m, name)(oarr(self.r), self.s, self.a1, self.a2, *ix, erfcs, self.c, self.mu)) - ring._subs(at(spec, ix), mp, memo))
                        for ix in IDX[rank]]
            self.run_all("limit " + name, fn)

    def transform(self):
        """The number multiplying each wave vector is the transform of r erf(lambda r)."""
        ps = self.ps
        d = spec_per.lemma(ps)
        self.run_all("transform", lambda: [("lemma: biharmonic of r erf(lambda r)", self.subs_real(d))])


    def symmetries(self):
        """What C17 uses of the couplings."""
        ps = self.ps
        neg = {gid(x): -x for x in ps.X}

        def fn():
            out = []
            z = SR.const(0)
            for (name, rank), t in zip(REAL, ps.real_t):
                odd = name in ("btr", "gtr")
                strain = {"gtr": [1], "htr": [1], "mr": [0, 2]}.get(name, [])
                for ix in IDX[rank]:
                    e = at(t, ix)
                    out.append(("%s%s is %s" % (name, list(ix), "odd" if odd else "even"), e.subs(neg) + (e if odd else -e)))
                    for p in strain:
                        i, j = ix[p], ix[p + 1]
                        if i < j:
                            out.append(("%s%s is symmetric" % (name, list(ix)), self.subs_real(e - at(t, ix[:p] + (j, i) + ix[p + 2:]))))
                        if i == j == 0:
                            out.append(("%s%s is traceless" % (name, list(ix)),
                                        self.subs_real(sum((at(t, ix[:p] + (q, q) + ix[p + 2:]) for q in D3), z))))
            return out
        self.run_all("symmetries", fn)


def concrete(ck, ps):
    rng = np.random.default_rng(ck.seed)
    for k in range(6 if ck.quick else 40):
        sizes = rng.uniform(.4, 1.4, 2) if k % 3 else np.full(2, rng.uniform(.5, 1.2))
        box = rng.uniform(.8, 1.2, 3) * 7
        d = rng.normal(size=3)
        r = d / np.linalg.norm(d) * sizes.sum() * rng.uniform(1.01, 1.6)
        if not per.compare(ck, ps, common.posdata_np(sizes, [[1., 2., 3.], np.array([1., 2., 3.]) - r], [], [], []), np.zeros(3), box,
                           [1.0, .7, 2.1][k % 3], None, None, "random pair", "random"):
            return


def run(ck):
    ps = spec_per.PerSpec()
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations; rounding is covered only by the real-code evaluations (relative 1e-7 per block)")
    ck.assume("numba's compiled code computes what the Python source says (decorators are removed for verification)")
    ck.assume("the Fourier transform of the Gaussian (lambda/sqrt pi)^3 exp(-lambda^2 r^2) is exp(-k^2/4 lambda^2) and differentiation multiplies a transform by i k (textbook facts)")
    ck.assume("the torque-free stresslet coupling H takes the factor a^2/6 on the Laplacian in both halves (the code's table); the two halves together do not depend on it, because the curl of the Laplacian of the full tensor vanishes")
    box = []
    if ck.guard("loading the module", lambda: box.append(Sym(ck, ps))):
        for n in ("real_space", "at_zero", "wave_space", "limit", "transform", "symmetries"):
            ck.guard(n, getattr(box[0], n))
    concrete(ck, ps)
