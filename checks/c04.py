"""C04: the lubrication matrix sums exactly the near pairs, each in its own place."""
import inspect
import itertools
import time
import numpy as np
import z3
from vc import ring, sym, facade, common, spec_lub, real, pairloop, nearloop, lazyarr
from vc.ring import SR, Unsupported
from vc.common import oarr, zarr
from checks import c03, c05


def bounded(ck, tab, lams, ns, nd, sizes_idx, near, tag):
    """ns spheres, nd dumbbells; near = list of bead pairs the neighbour search
    reports.  Displacements, separations, radius scale, viscosity and all table
    entries are arbitrary; close_particles is replaced by its contract (C05)."""
    m = c03.load(lams)
    if "close_particles" not in m.__dict__:
        raise Unsupported("no close_particles in module")
    mu, a = ring.free("mu", pos=True), ring.free("a", pos=True)
    nb = ns + 2 * nd
    unit = {0: SR.const(1), 1: SR.const(10), 2: SR.const(1) / 10}
    size = [unit[sizes_idx[b]] * a for b in range(ns + nd)]
    size = size[:ns] + size[ns:] + size[ns:]
    fl = [float(x.eval({list(a.gens())[0]: 1})) for x in size]
    lf = [float(x.eval({})) for x in lams]
    lidx = lambda me, other: min(range(len(lams)), key=lambda k: abs(np.log(lf[k] * fl[me] / fl[other])))
    d = {p: ring.unit_vector("n%d_%d_" % p) for p in near}
    sd = {p: ring.free("s%d_%d" % p, pos=True) for p in near}
    pairs = sorted(near + [(b, b) for b in range(nb)])

    def stub(bead_positions, bead_sizes, *args, **kw):
        disp = [[sd[p] * x for x in d[p]] if p in d else [SR.const(0)] * 3 for p in pairs]
        dist = [sd[p] if p in d else SR.const(0) for p in pairs]
        ratio = [bead_sizes[q] / bead_sizes[p] for p, q in pairs]
        return np.array(pairs), oarr(disp), oarr(dist), oarr(ratio)
    m.close_particles = stub
    z3_ = lambda n: zarr(n, 3)
    pd = (oarr(size[:ns]) if ns else zarr(0), z3_(ns), zarr(ns, 2, 3), oarr(size[ns:ns + nd]) if nd else zarr(0), z3_(nd), z3_(nd))
    scope = "bounded: %d spheres, %d dumbbells" % (ns, nd)
    if scope not in ck.bounds:
        ck.bounds.append(scope)
    half45 = ring.literal("4.5")

    def harness():
        for p in near:
            sym.assume(sd[p] < 4)
            c03.value(0, 0, 0, sd[p])
        return m.generate_R2Bexact(pd, 0, 2, 0, mu)[0]
    feas = 0
    for ctx, (kind, res) in sym.explore(harness, limit=60, deadline=ck.deadline - 200):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            ck.record("no exception", "undecided", "path", 0, scope, repr(res))
            continue
        feas += 1

        def scal(me, other, key):
            return lambda nm, g: c03.value(spec_lub.ORDER.index(nm), g, lidx(me, other), sd[key])
        exp = spec_lub.assemble(ns, nd, [(p[0], p[1], d[p], p) for p in near], size, scal) * mu
        got = np.asarray(res, dtype=object)
        if got.shape != exp.shape:
            raise Unsupported("shape %s" % (got.shape,))
        for i in range(exp.shape[0]):
            for j in range(exp.shape[1]):
                ck.zero("%s[%d,%d]" % (tag, i, j), SR.lift(got[i, j]) - exp[i, j], ctx, None, scope)
    if not feas:
        raise Unsupported("vacuous")


def unbounded(ck, tab, lams, conc):
    """Any numbers of spheres and dumbbells and any set of near pairs."""
    m = c03.load(lams)
    if "close_particles" not in m.__dict__:
        raise Unsupported("no close_particles in module")
    sig = inspect.signature(m.close_particles)
    mu = ring.free("mu", pos=True)
    rules = []
    args = dict(cutoff_factor=ring.free("cutoff", pos=True), box_bottom_left=[ring.free("bl%d" % i) for i in range(3)],
                box_top_right=[ring.free("tr%d" % i) for i in range(3)], Ot_infinity=[ring.free("O%d" % i) for i in range(3)],
                Et_infinity=[[ring.free("E%d%d" % (i, j)) for j in range(3)] for i in range(3)])
    arr = {k: v if k == "cutoff_factor" else oarr(v) for k, v in args.items()}

    def rule(B):
        r = nearloop.NearCut(ck, B, lams, c03.value, spec_lub.ORDER)
        r.weight, r.scale = SR.const(1), mu
        rules[:] = [r]

        def stub(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            b = b.arguments
            if sym.CTX.decide("arguments of the search"):
                raise Arguments(B, b)
            return tuple(r.lists())
        m.close_particles = stub
        return r

    def call(B):
        try:
            return m.generate_R2Bexact(B.posdata(), 0, mu=mu, **arr)[0]
        except Arguments as e:
            rules[0].info = "search"
            rules[0].asked = e.differences(arr)
            raise lazyarr.BodyEnd()
    return pairloop.prove(ck, lambda: None, call, None, rule=rule, limit=900, deadline=ck.t0 + (280 if ck.quick else 400), conc=conc)


class Arguments(Exception):
    """What the neighbour search is asked."""

    def __init__(self, B, got):
        self.B, self.got = B, got

    def differences(self, arr):
        B, got = self.B, self.got
        b = sym.SI.var("b")
        sym.iassume(z3.And(b.z() >= 0, b.z() < (B.ns + B.nd * 2).z()))
        if not sym.ifeasible():
            raise sym.Infeasible()
        out = []
        k, i = B.bead(b)
        half = SR.const(1) / 2
        size = (B.ss if k == "S" else B.ds).get((i,))
        out.append(("size of bead %s given to the search" % k, SR.lift(got["bead_sizes"].get((b,))) - size))
        for c in range(3):
            x = B.sp.get((i, c)) if k == "S" else B.dp.get((i, c)) + (-half if k == "4" else half) * B.dx.get((i, c))
            out.append(("position of bead %s given to the search [%d]" % (k, c), SR.lift(got["bead_positions"].get((b, c))) - x))
        for n, v in arr.items():
            if n not in got:
                raise Unsupported("argument %s of the search" % n)
            x, y = np.asarray(got[n], dtype=object), np.asarray(v, dtype=object)
            if x.shape != y.shape:
                raise Unsupported("argument %s of the search" % n)
            for j in np.ndindex(*y.shape):
                out.append(("%s given to the search %s" % (n, list(j)), SR.lift(x[j]) - SR.lift(y[j])))
        return out


def cluster(rng, ns, nd, ratios, gap):
    """Non-overlapping random cluster with many near pairs."""
    a = np.array([ratios[k % len(ratios)] for k in range(ns)]) if ns else np.zeros(0)
    da = np.array([ratios[(k + 1) % len(ratios)] for k in range(nd)]) if nd else np.zeros(0)
    pos, size = [], []

    def ok(x, s):
        return all(np.linalg.norm(x - y) > 1.002 * (s + t) for y, t in zip(pos, size))

    def near(s):
        for _ in range(4000):
            if not pos:
                x = rng.uniform(-1, 1, 3)
            else:
                k = rng.integers(len(pos))
                u = rng.normal(size=3)
                x = pos[k] + u / np.linalg.norm(u) * (size[k] + s) * rng.uniform(1.003, gap)
            if ok(x, s):
                return x
        raise RuntimeError
    sp = []
    for s in a:
        x = near(s)
        sp.append(x)
        pos.append(x)
        size.append(s)
    dp, dx = [], []
    for s in da:
        x = near(s)
        pos.append(x)
        size.append(s)
        for _ in range(4000):
            u = rng.normal(size=3)
            y = x + u / np.linalg.norm(u) * 2 * s * rng.uniform(1.01, 2.6)
            if ok(y, s):
                break
        else:
            y = near(s)
        pos.append(y)
        size.append(s)
        dp.append((x + y) / 2)
        dx.append(y - x)
    return common.posdata_np(a, np.array(sp).reshape(-1, 3), da, np.array(dp).reshape(-1, 3), np.array(dx).reshape(-1, 3))


def concrete(ck, tab):
    rng = np.random.default_rng(ck.seed + 11)
    cases = [(3, 0, [1.]), (2, 1, [1.]), (1, 2, [1., .1]), (0, 2, [1.]), (0, 3, [.1]), (3, 2, [1., .1]), (4, 3, [1.]), (5, 0, [1., .1, .01]), (1, 0, [1.]), (0, 1, [1.]),
             (7, 4, [1.])]
    if not ck.quick:
        cases = cases * 4 + [(12, 0, [1., .1]), (6, 8, [1.])]
    for k, (ns, nd, ratios) in enumerate(cases):
        pd = cluster(rng, ns, nd, ratios, 1.9)
        if not c03.compare(ck, tab, pd, [1.0, 1.7, .3][k % 3], [2, 2, 1.4][k % 3], "random cluster", "cluster"):
            return
    # sparse: nothing within the cutoff
    pd = common.posdata_np([1., 1.], [[0, 0, 0], [20, 0, 0]], [1.], [[0, 30, 0]], [[0, 0, 9.]])
    c03.compare(ck, tab, pd, 1.0, 2, "isolated particles", "isolated")
    # periodic box, sheared every other time
    for k in range(4 if ck.quick else 8):
        L = np.array([12., 14., 13.])
        Ot, Et = np.zeros(3), np.zeros((3, 3))
        if k % 2:
            Et[0, 1] = Et[1, 0] = g = rng.uniform(.05, .4)
            Ot[2] = -g
        basis = c05.sheared_basis(L, Ot, Et)
        inv = np.linalg.inv(basis)
        pd = cluster(rng, 4, 2, [1.], 1.8)
        shift = rng.uniform(0, 12, 3)
        pd = common.posdata_np(pd[0], pd[1] + shift, pd[3], pd[4] + shift, pd[5])
        pd[1][:] = np.mod(pd[1] @ inv, 1) @ basis

        def disp(x, y):
            f = (y - x) @ inv
            return (f - np.floor(f + .5)) @ basis
        if not c03.compare(ck, tab, pd, 1.0, 2, "periodic box", "periodic", extra=dict(box_bottom_left=np.zeros(3), box_top_right=L,
                           Ot_infinity=Ot, Et_infinity=Et), disp=disp):
            return


def run(ck):
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations")
    ck.assume("close_particles meets its contract (checked by C05): pairs sorted, each once, self pairs included")
    ck.assume("numpy.interp is an arbitrary function of (table column, separation); C06 is about its value")
    ck.under_contract("generate_R2Bexact", "generate_R2Bexact_loop", "submatrix_coords_tuple", "posdata_data")
    tab = c03.real_tables(ck)
    lams = [ring.literal(repr(float(x))) for x in tab.lams]
    cases = [(2, 1, (0, 2, 0)), (1, 2, (0, 0, 2)), (3, 0, (0, 0, 1)), (0, 2, (0, 0))]
    if not ck.quick:
        cases += [(2, 2, (0, 0, 2, 0)), (3, 1, (0, 1, 0, 0)), (4, 0, (0, 0, 0, 0)), (0, 3, (0, 2, 0))]
    done = ck.guard("any number of particles", unbounded, ck, tab, lams, None)
    for ns, nd, si in () if done else cases:
        allp = list(itertools.combinations(range(ns + 2 * nd), 2))
        pats = [allp] + [ck.rng.sample(allp, len(allp) // 2)] + [[ck.rng.choice(allp)] for _ in range(2)] + [[]]
        for k, near in enumerate(pats):
            if time.time() > ck.t0 + (240 if ck.quick else 500):
                ck.note("time limit: remaining patterns skipped")
                break
            tag = "ns=%d nd=%d pattern %d" % (ns, nd, k)
            if not ck.guard(tag, bounded, ck, tab, lams, ns, nd, si, sorted(near), tag):
                break
    concrete(ck, tab)
    if ck.counts()["refuted"] and not ck.viol:
        # an obligation failed: look for an input on which the real code shows it
        rng = np.random.default_rng(ck.seed + 12)
        for ns, nd, si in cases * 6:
            pd = cluster(rng, ns, nd, [[1.], [1., .1], [.1, 1.]][rng.integers(3)], rng.uniform(1.2, 2.5))
            if not c03.compare(ck, tab, pd, 1.0, 2, "after a failed obligation", "counterexample"):
                return
