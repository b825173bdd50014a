"""C03: lubrication pair tensors have the exact axisymmetric two-sphere form."""
import types
import numpy as np
from vc import ring, sym, facade, common, spec_lub, real
from vc.ring import SR, Unsupported
from vc.common import oarr, zarr, gid

MODULE = "functions.generate_R2Bexact"

R2B = '''
def f(a):
    import functions.generate_R2Bexact as g
    kw = {}
    for k in ("cutoff_factor", "mu", "box_bottom_left", "box_top_right", "Ot_infinity", "Et_infinity"):
        if k in a:
            kw[k] = a[k]
    pd = a["posdata"]
    before = [x.copy() for x in pd]
    m = np.asarray(g.generate_R2Bexact(pd, **kw)[0], dtype=float)
    return {"m": m, "unchanged": all(np.array_equal(x, y) for x, y in zip(before, pd))}
'''

TABLES = '''
def f(a):
    import resistance_scalars.data as d
    return {"xyz": np.asarray(d.XYZ_raw, dtype=float), "sr": np.asarray(d.s_dash_range, dtype=float), "lams": np.asarray(d.lam_range_with_reciprocals, dtype=float)}
'''


def tables_stub(lams):
    """Tables with arbitrary entries: the scalars are universally quantified."""
    raw = np.empty((11, 2, 2, len(lams)), dtype=object)
    for k in np.ndindex(*raw.shape):
        raw[k] = ring.free("T[%d,%d,%d,%d]" % k)
    m = types.ModuleType("resistance_scalars.data")
    m.XYZ_raw = raw
    m.XYZ_raw_no_d = raw
    m.s_dash_range = oarr([SR.const(2), ring.literal("4.5")])
    m.lam_range_with_reciprocals = oarr(lams)
    m.lam_range = oarr([l for l in lams if ring.fval(l) <= 1] if hasattr(ring, "fval") else lams)
    return m


def value(i, g, l, s):
    """The interpolated scalar: an unknown depending on table column and separation."""
    key = tuple(sorted(SR.lift(s).t.items()))
    ids = sym.CTX.user.setdefault("seps", {}) if sym.CTX is not None else {}
    if key not in ids:
        ids[key] = len(ids)
    return ring.free("V[%d,%d,%d]@%d" % (i, g, l, ids[key]))


def interp_hook(x, xp, fp):
    names = []
    for v in fp:
        gs = list(SR.lift(v).gens())
        if len(gs) != 1 or SR.lift(v).t != {((gs[0], 1),): 1}:
            raise Unsupported("interpolation of something that is not a table column")
        names.append(ring.GENS[gs[0]].name)
    cols = []
    for k, n in enumerate(names):
        i, g, r, l = eval(n[1:])
        if r != k:
            raise Unsupported("table column is not in order")
        cols.append((i, g, l))
    if len(set(cols)) != 1 or len(cols) != 2:
        raise Unsupported("mixed table columns")
    if [str(SR.lift(v).short()) for v in xp] != [str(SR.const(2).short()), str(ring.literal("4.5").short())]:
        raise Unsupported("interpolation abscissae")
    return value(cols[0][0], cols[0][1], cols[0][2], x)


def load(lams):
    w = common.world()
    w.stubs["resistance_scalars.data"] = tables_stub(lams)
    facade.INTERP_HOOK[0] = interp_hook
    return w.load(MODULE)


def real_tables(ck):
    t = ck.real.call(TABLES, {})
    return spec_lub.Tables(t["xyz"], t["sr"], t["lams"])


def oracle(tab, pd, cutoff, mu, box=None, disp=None):
    """Expected lubrication matrix by brute force over bead pairs."""
    ns, nd = len(pd[0]), len(pd[3])
    pos = np.concatenate([pd[1], pd[4] - .5 * pd[5], pd[4] + .5 * pd[5]])
    a = np.concatenate([pd[0], pd[3], pd[3]])
    pairs = []
    for u in range(len(a)):
        for v in range(u + 1, len(a)):
            r = disp(pos[u], pos[v]) if disp is not None else pos[v] - pos[u]
            s = float(np.sqrt(r @ r))
            sd = 2 * s / (a[u] + a[v])
            if sd < 2 * cutoff:
                pairs.append((u, v, r / s, sd))
    return spec_lub.assemble(ns, nd, pairs, a, lambda me, other, s: tab.sc(a[other] / a[me], s), sym=False, mu=mu), pairs


def compare(ck, tab, pd, mu, cutoff, what, tag, rtol=1e-7, extra=None, disp=None):
    ns, nd = len(pd[0]), len(pd[3])
    inp = dict(posdata=pd, mu=float(mu), cutoff_factor=cutoff)
    if extra:
        inp.update(extra)
    exp, pairs = oracle(tab, pd, cutoff, mu, disp=disp)
    try:
        ans = ck.real.call(R2B, inp)
    except real.RealError as e:
        ck.violation("generate_R2Bexact raised %s" % e, dict(function="generate_R2Bexact", input=inp, error=str(e)))
        return False
    got = ans["m"]
    ck.evaluated((tag, ns, nd, mu, cutoff, tuple(np.round(pd[1].ravel(), 9)), tuple(np.round(pd[4].ravel(), 9))),
                 dict(spheres=ns, dumbbells=nd, near_pairs=len(pairs), class_=tag))
    if not ans["unchanged"]:
        ck.violation("generate_R2Bexact modified the configuration it was given", dict(function="generate_R2Bexact", input=inp))
        return False
    if got.shape != exp.shape:
        ck.violation("lubrication matrix has shape %s, expected %s" % (got.shape, exp.shape), dict(function="generate_R2Bexact", input=inp))
        return False
    bad = common.blockwise_close(got, exp, common.blocks_of(ns, nd), rtol)
    if bad:
        r0, r1, c0, c1, err, sc = bad[0]
        ck.violation("lubrication block differs from the two-sphere resistance (%s)" % what,
                     dict(function="generate_R2Bexact", input=inp, rows=[r0, r1], cols=[c0, c1], expected=exp[r0:r1, c0:c1],
                          got=got[r0:r1, c0:c1], max_error=err))
        return False
    return True


def symbolic(ck, lams, l_index, tab):
    """Two spheres of ratio lams[l_index]; radius, separation, direction, position,
    viscosity and every table entry arbitrary."""
    m = load(lams)
    lam = lams[l_index]
    recip = [k for k, x in enumerate(lams) if abs(float(x.eval({})) * float(lam.eval({})) - 1) < 1e-9][0]
    mu, s, a = (ring.free(n, pos=True) for n in ("mu", "s", "a"))
    n = ring.unit_vector("n")
    p = [ring.free("p%d" % i) for i in range(3)]
    a2 = lam * a
    pd = (oarr([a, a2]), oarr([p, [p[i] + s * n[i] for i in range(3)]]), zarr(2, 2, 3), zarr(0), zarr(0, 3), zarr(0, 3))
    sd = 2 * s / (a + a2)

    def harness():
        near = bool(sd < 4)
        # the interpolation values are named on this path before the run
        value(0, 0, 0, sd)
        return m.generate_R2Bexact(pd, 0, 2, 0, mu)[0], near

    def conc(env, name):
        e = dict(env)
        pdn = tuple(common.npval(x, e) for x in pd)
        pdn = common.posdata_np(pdn[0], pdn[1], [], [], [])
        compare(ck, tab, pdn, common.fval(mu, e), 2, "obligation %s" % name, "counterexample")
    ck.draw = lambda G, rng: {"s": rng.uniform(.5, 6), "a": rng.uniform(.5, 2)}.get(G.name, rng.uniform(-.7, .7) if G.name[0] == "n" else None)
    feas = 0
    for ctx, (kind, res) in sym.explore(harness, limit=60, deadline=ck.deadline - 200):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            st, env = sym.sample_path(ctx, [gid(s), gid(a), gid(mu)] + [gid(x) for x in p], ck.rng, draw=ck.draw)
            if st == "unsat":
                ck.dead += 1
                continue
            ck.record("no exception", "refuted", "path", 0, "unbounded", repr(res))
            if st == "sat":
                conc(env, "no exception")
            continue
        got, near = res
        if not near:
            exp = facade.zeros((22, 22))
        else:
            def scal(me, other, key):
                li = l_index if me == 0 else recip
                return lambda nm, g: value(spec_lub.ORDER.index(nm), g, li, sd)
            exp = spec_lub.assemble(2, 0, [(0, 1, n, None)], [a, a2], scal) * mu
        feas += 1
        got = np.asarray(got, dtype=object)
        if got.shape != (22, 22):
            raise Unsupported("shape %s" % (got.shape,))
        for i in range(22):
            for j in range(22):
                ck.zero("ratio %.3g %s[%d,%d]" % (float(lam.eval({})), "near" if near else "far", i, j), SR.lift(got[i, j]) - exp[i, j], ctx, conc)
    if feas < 2:
        raise Unsupported("vacuous: %d feasible paths" % feas)


def concrete(ck, tab):
    rng = np.random.default_rng(ck.seed + 3)
    ratios = [1.0, 10.0, .1, 100.0, .01]
    reps = 3 if ck.quick else 12
    for rep in range(reps):
        for lam in ratios:
            a1 = 1.0 if rep == 0 else float(rng.choice([.5, 1, 2, .37]))
            a2 = a1 * lam
            u = rng.normal(size=3)
            u /= np.linalg.norm(u)
            if rep == 1:
                u = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
            sd = [2.0005, 2.3, 3.7][rep % 3] + rng.uniform(0, .2)
            x = rng.uniform(-3, 3, 3)
            pd = common.posdata_np([a1, a2], [x, x + u * sd * (a1 + a2) / 2], [], [], [])
            if not compare(ck, tab, pd, [1.0, 1.7, .3][rep % 3], 2, "two spheres", "pair %.3g" % lam):
                return


def run(ck):
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations")
    ck.assume("numpy.interp is an arbitrary function of (table column, separation) here; C06 is about its value")
    ck.assume("the two radii have a tabulated ratio; radii equal up to isclose tolerance use the same table")
    ck.under_contract("generate_R2Bexact", "generate_R2Bexact_loop", "L1..L9", "Af", "Bf", "Cf", "Gf", "Hf", "Mf", "con_Gf_row", "con_Hf_row", "close_particles")
    tab = real_tables(ck)
    lams = [ring.literal(repr(float(x))) for x in tab.lams]
    for li in range(len(lams)):
        ck.guard("ratio %.3g" % tab.lams[li], symbolic, ck, lams, li, tab)
    concrete(ck, tab)
