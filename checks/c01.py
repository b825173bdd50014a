"""C01: far-field pair couplings obey Faxen's laws."""
import math
import time
import numpy as np
from vc import ring, sym, facade, common, spec_far, real
from vc.ring import SR, Unsupported
from vc.common import oarr, zarr, gid, npval

MODULE = "functions.generate_Minfinity"


def compare_real(ck, spec, ss, sp, mu, what, tag):
    """Run the real code on two (or more) spheres and compare with Faxen's laws."""
    ns = len(ss)
    pd = common.posdata_np(ss, sp, [], [], [])
    inp = dict(posdata=pd, mu=float(mu))
    st, n = spec_far.layout(ns, 0)
    exp = spec_far.assemble_np(ns, 0, lambda u, v: spec.num_pair(pd[1][u], pd[1][v], pd[0][u], pd[0][v], mu, u == v))
    try:
        got = ck.real.call(common.MINF, inp)["m"]
    except real.RealError as e:
        ck.violation("%s: generate_Minfinity raised %s" % (what, e), dict(function="generate_Minfinity", input=inp, error=str(e)))
        return False
    ck.evaluated((tag, tuple(np.round(pd[1].ravel(), 9)), tuple(pd[0]), mu),
                 dict(sizes=list(pd[0]), positions=pd[1].tolist(), mu=mu, class_=tag))
    if got.shape != exp.shape:
        ck.violation("%s: shape %s instead of %s" % (what, got.shape, exp.shape), dict(function="generate_Minfinity", input=inp))
        return False
    # entries that the statement is about: all blocks between the spheres
    bad = common.blockwise_close(got, exp, common.blocks_of(ns, 0))
    if bad:
        r0, r1, c0, c1, err, sc = bad[0]
        ck.violation("far-field coupling differs from Faxen's laws (%s)" % what,
                     dict(function="generate_Minfinity", input=inp, rows=[r0, r1], cols=[c0, c1],
                          expected=exp[r0:r1, c0:c1], got=got[r0:r1, c0:c1], max_error=err))
        return False
    return True


def symbolic(ck, spec):
    w = common.world()
    m = w.load(MODULE)
    fn = m.generate_Minfinity
    mu, h = (ring.free(n, pos=True) for n in ("mu", "h"))
    dd = ring.free("d")
    a1, a2 = h + dd, h - dd          # every pair of radii has this form
    s = ring.free("s", pos=True)
    un = ring.unit_vector("n")       # every non-zero displacement is s * n
    r = [s * x for x in un]
    p = [ring.free("p%d" % i) for i in range(3)]
    lim = ring.literal("2.001") * (a1 + a2) / 2
    ck.draw = lambda G, rng: {"h": rng.uniform(.5, 2), "d": rng.uniform(-.4, .4), "mu": rng.uniform(.3, 3)}.get(
        G.name, rng.uniform(.2, 9) if G.name == "s" else rng.uniform(-.7, .7) if G.name[0] == "n" else rng.uniform(-2, 2))

    def harness():
        sym.assume(s > ring.literal("1e-8"))
        sym.assume(h > ring.literal("1e-8"))
        sym.assume(h + dd > 0)
        sym.assume(h - dd > 0)
        sym.CTX.user["near"] = bool(s < lim)
        pos = oarr([[x + y for x, y in zip(p, r)], p])
        return fn((oarr([a1, a2]), pos, zarr(2, 2, 3), zarr(0), zarr(0, 3), zarr(0, 3)), 0, 0, mu)[0]

    far = spec.at(r, s, a1, a2, mu)
    far21 = spec.at([-x for x in r], s, a2, a1, mu)
    rc = [x * lim / s for x in r]
    near = spec.at(rc, lim, a1, a2, mu)
    near21 = spec.at([-x for x in rc], lim, a2, a1, mu)
    z = SR.const(0)
    idm = lambda n, v: [[v if i == j else z for j in range(n)] for i in range(n)]
    zm = lambda n, k: [[z] * k for _ in range(n)]

    def selfb(a):
        return dict(A=idm(3, 1 / (6 * ring.PI * mu * a)), B=zm(3, 3), G=zm(3, 5), C=idm(3, 1 / (8 * ring.PI * mu * a ** 3)),
                    H=zm(3, 5), M=idm(5, 3 / (20 * ring.PI * mu * a ** 3)))
    st, n = spec_far.layout(2, 0)

    def conc(env, name):
        v = lambda x: common.fval(x, env)
        compare_real(ck, spec, [v(a1), v(a2)], [[v(p[i]) + v(r[i]) for i in range(3)], [v(p[i]) for i in range(3)]], v(mu),
                     "obligation %s" % name, "counterexample")

    reached = {"near": 0, "far": 0}
    for ctx, (kind, res) in sym.explore(harness, deadline=ck.deadline - 300):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        isnear = ctx.user["near"]
        if kind == "raise":
            stt, env = sym.sample_path(ctx, [gid(x) for x in un[:2] + p + [s, h, dd, mu]], ck.rng, draw=ck.draw)
            if stt == "unsat":
                ck.dead += 1
                continue
            ck.record("no exception", "refuted" if stt == "sat" else "undecided", "path", 0, detail=repr(res))
            if stt == "sat":
                conc(env, "no exception")
            continue
        # is the path feasible at all?
        stt, env = sym.sample_path(ctx, [gid(x) for x in un[:2] + p + [s, h, dd, mu]], ck.rng, draw=ck.draw)
        if stt == "unsat":
            ck.dead += 1
            continue
        reached["near" if isnear else "far"] += 1
        b12, b21 = (near, near21) if isnear else (far, far21)
        blocks = {}
        for (u, v), b, bt in (((0, 1), b12, b21), ((1, 0), b21, b12), ((0, 0), selfb(a1), selfb(a1)), ((1, 1), selfb(a2), selfb(a2))):
            T = lambda q: [list(x) for x in zip(*q)]
            g = {("U", "U"): b["A"], ("U", "W"): b["B"], ("U", "E"): b["G"], ("W", "W"): b["C"], ("W", "E"): b["H"],
                 ("E", "E"): b["M"], ("W", "U"): T(bt["B"]), ("E", "U"): T(bt["G"]), ("E", "W"): T(bt["H"])}
            for (kr, kc), blk in g.items():
                r0, c0 = st[kr, u], st[kc, v]
                for i, row in enumerate(blk):
                    for j, val in enumerate(row):
                        ck.zero("faxen %s%s of sphere %d by %d, %s[%d,%d] path %d" % (
                            kr, kc, u + 1, v + 1, "clamped" if isnear else "apart", i, j, ck.paths),
                            SR.lift(res[r0 + i, c0 + j]) - val, ctx, conc)
    if not (reached["near"] and reached["far"]):
        raise Unsupported("vacuous: path classes reached %s" % reached)
    ck.covers += 2
    ck.under_contract("generate_Minfinity", "generate_Minfinity_loop", "M11", "M12", "M13", "M22", "M23", "M33", "con_M13_row",
                      "con_M23_row", "J", "R", "K", "D_J", "DD_J", "D_R", "D_K", "Lap_J", "D_Lap_J", "Lap_R", "Lap_K", "DLap_K", "norm",
                      "levi")


def concrete(ck, spec):
    rng = np.random.default_rng(ck.seed)
    n = 30 if ck.quick else 300
    dirs = [np.array(d, float) for d in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 1, 0], [0, 1, -1], [1, 1, 1])]
    for k in range(n):
        ns = 2 if k % 3 else 3
        ss = rng.uniform(.2, 3, ns) if k % 4 else np.full(ns, rng.uniform(.5, 2))
        sp = np.zeros((ns, 3))
        sp[0] = rng.normal(size=3) * 3
        for i in range(1, ns):
            d = dirs[(k + i) % len(dirs)] if k % 2 else rng.normal(size=3)
            d = d / np.linalg.norm(d)
            mean = (ss[i] + ss[i - 1]) / 2
            dist = mean * [1.2, 1.9, 2.0, 2.0005, 2.0011, 2.1, 3.0, 7.5, 40.0, rng.uniform(2, 10)][(k // 2) % 10]
            sp[i] = sp[i - 1] + d * dist
        mu = [1.0, 0.37, 2.9][k % 3]
        if not compare_real(ck, spec, ss, sp, mu, "random configuration", "random"):
            return


def run(ck):
    spec = spec_far.FarSpec()
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations; rounding is covered only by the real-code evaluations (tolerance 1e-7 relative per block)")
    ck.assume("numba's compiled code computes what the Python source says (decorators are removed for verification)")
    ck.assume("distinct sphere centres are more than 1e-8 apart and radii sum to more than 1e-8 (the code's own coincidence thresholds)")
    ck.assume("two spheres stand for any pair: the placement of pairs among many particles is property C02")
    ck.guard("couplings", symbolic, ck, spec)
    concrete(ck, spec)
