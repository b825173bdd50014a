"""C06: resistance scalars are looked up for the right pair and interpolated linearly."""
import os
import types
import numpy as np
from vc import ring, sym, facade, common, spec_lub, spec_far, real
from vc.ring import SR, Unsupported
from checks import c03

MODULE = "functions.generate_R2Bexact"
NAMES = spec_lub.ORDER

LOOK = '''
def f(a):
    import functions.generate_R2Bexact as g
    out = []
    for (n, gam, s, l) in a["ask"]:
        out.append(float(getattr(g, n)(int(gam), float(s), int(l))))
    return {"v": np.array(out)}
'''

TABLES = '''
def f(a):
    import resistance_scalars.data as d
    return {"xyz": np.asarray(d.XYZ_raw, dtype=float), "full": np.asarray(d.XYZ_raw_no_d, dtype=float), "sr": np.asarray(d.s_dash_range, dtype=float),
            "lams": np.asarray(d.lam_range_with_reciprocals, dtype=float), "lam": np.asarray(d.lam_range, dtype=float)}
'''


def linear(x, xp, fp):
    """Contract of numpy.interp with three arguments."""
    n = len(xp)
    if n != len(fp):
        raise Unsupported("interp lengths")
    if x <= xp[0]:
        return fp[0]
    if x >= xp[n - 1]:
        return fp[n - 1]
    lo, hi = 0, n - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if x >= xp[mid]:
            lo = mid
        else:
            hi = mid
    return fp[lo] + (fp[hi] - fp[lo]) * (x - xp[lo]) / (xp[hi] - xp[lo])


def deductive(ck, tab, k, l):
    knots = [ring.literal(repr(float(x))) for x in tab["sr"]]
    lams = [ring.literal(repr(float(x))) for x in tab["lams"]]
    raw = np.empty((len(NAMES), 2, len(knots), len(lams)), dtype=object)
    for q in np.ndindex(*raw.shape):
        raw[q] = ring.free("T[%d,%d,%d,%d]" % q)
    m = types.ModuleType("resistance_scalars.data")
    m.XYZ_raw, m.s_dash_range, m.lam_range_with_reciprocals = raw, common.oarr(knots), common.oarr(lams)
    w = common.world()
    w.stubs["resistance_scalars.data"] = m
    facade.INTERP_HOOK[0] = linear
    mod = w.load(MODULE)
    s = ring.free("s", pos=True)
    fn = getattr(mod, NAMES[k])

    def spec(g):
        # first knot above s, written without bisection
        col = raw[k, g, :, l]
        prev = None
        for q in range(len(knots)):
            if s < knots[q]:
                if prev is None:
                    return col[0]
                t = (s - knots[prev]) / (knots[q] - knots[prev])
                return (SR.const(1) - t) * col[prev] + t * col[q]
            prev = q
        return col[-1]
    for g in range(2):
        def harness():
            got = fn(g, s, l)
            return SR.lift(got) - spec(g)

        def conc(env, name):
            rng = np.random.default_rng(7)
            ss = list(tab["sr"]) + list(rng.uniform(1.5, 5, 60))
            look(ck, tab, [(NAMES[k], g, x, l) for x in ss], "counterexample")
        seen = 0
        for ctx, (kd, res) in sym.explore(harness, limit=400, deadline=ck.deadline):
            ck.paths += 1
            if kd == "dead":
                ck.dead += 1
                continue
            if kd == "raise":
                raise Unsupported("exception on a path: %r" % (res,))
            seen += 1
            ck.zero("%s%d ratio %.3g segment %d" % (NAMES[k], g, tab["lams"][l], seen), res, ctx, conc)
        if seen < len(knots):
            raise Unsupported("vacuous: %d segments" % seen)


def look(ck, tab, ask, tag):
    T = spec_lub.Tables(tab["xyz"], tab["sr"], tab["lams"])
    exp = np.array([T.interp(tab["xyz"][NAMES.index(n), g, :, l], s) for n, g, s, l in ask])
    try:
        got = ck.real.call(LOOK, dict(ask=[list(x) for x in ask]))["v"]
    except real.RealError as e:
        ck.violation("looking up a resistance scalar raised %s" % str(e)[:200], dict(function="XYZ", input=dict(ask=[list(x) for x in ask]), error=str(e)))
        return False
    for q, a in enumerate(ask):
        ck.evaluated((tag,) + tuple(a))
        if not abs(got[q] - exp[q]) <= 1e-9 * max(1., abs(exp[q])):
            ck.violation("%s%d for ratio index %d at separation %.9g is not the interpolation of its own table" % (a[0], a[1], a[3], a[2]),
                         dict(function=a[0], input=list(a), expected=float(exp[q]), got=float(got[q])))
            return False
    return True


def far_scalars(F, s, lam):
    """Scalars of the inverse far-field mobility of two spheres, by projection on the
    axisymmetric tensors; residual says how well they represent it."""
    a, X = [1., float(lam)], [np.zeros(3), np.array([s * (1 + lam) / 2, 0, 0])]
    R = np.linalg.inv(spec_far.assemble_np(2, 0, lambda u, v: F.num_pair(X[u], X[v], a[u], a[v], 1., u == v)))
    out, resid = np.zeros((len(NAMES), 2)), 0.
    for g in range(2):
        b = dict(A=R[0:3, 3 * g:3 * g + 3], B=R[6:9, 3 * g:3 * g + 3], C=R[6:9, 6 + 3 * g:9 + 3 * g], G=R[12:17, 3 * g:3 * g + 3],
                 H=R[12:17, 6 + 3 * g:9 + 3 * g], M=R[12:17, 12 + 5 * g:17 + 5 * g])
        for grp in "ABCGHM":
            names = [n for n in NAMES if n[1] == grp]
            T = np.array([spec_lub.condensed(lambda nm, gg: float(nm == n), g, [1., 0, 0], 1., False)[grp].ravel() for n in names]).T
            x = np.linalg.lstsq(T, b[grp].ravel(), rcond=None)[0]
            resid = max(resid, float(np.abs(T @ x - b[grp].ravel()).max()) / max(1., float(np.abs(b[grp]).max())))
            for n, v in zip(names, x):
                out[NAMES.index(n), g] = v
    return out, resid


def tables(ck, tab):
    D, N, sr, lams, lam = tab["xyz"], tab["full"], tab["sr"], tab["lams"], tab["lam"]
    want = np.unique(np.concatenate([lam, 1 / lam]))
    rep = dict(function="resistance_scalars.data", shapes=[list(D.shape), list(N.shape)], s=sr, lams=lams)
    ok = D.shape == N.shape == (len(NAMES), 2, len(sr), len(lams)) and bool(np.all(np.diff(sr) > 0))
    ck.evaluated(("shape",), None)
    if not ok:
        ck.violation("tables do not have one entry per scalar, role, separation and ratio", rep)
        return
    if len(lams) != len(want) or not np.allclose(lams, want, rtol=1e-12):
        ck.violation("tabulated ratios are not the listed ratios and their reciprocals in order", rep)
        return
    F = spec_far.FarSpec()
    worst = 0.
    for li, l in enumerate(lams):
        for si, s in enumerate(sr):
            far, resid = far_scalars(F, float(s), float(l))
            if resid > 1e-8:
                raise RuntimeError("far-field inverse not representable (%g)" % resid)
            for k in range(len(NAMES)):
                for g in range(2):
                    e = abs(N[k, g, si, li] - far[k, g] - D[k, g, si, li])
                    worst = max(worst, e)
                    ok = e <= 1e-7 * max(1., abs(far[k, g]))
                    ck.record("table %s%d s=%g ratio %g" % (NAMES[k], g, s, l), "proved" if ok else "refuted", "evaluation", scope="bounded")
                    ck.evaluated(("table", k, g, si, li))
                    if not ok:
                        ck.violation("tabulated %s%d at separation %g, ratio %g is not the full scalar minus the far-field part" % (NAMES[k], g, s, l),
                                     dict(function="resistance_scalars.data", input=[NAMES[k], g, float(s), float(l)], full=N[k, g, si, li],
                                          far_field=far[k, g], expected=N[k, g, si, li] - far[k, g], got=D[k, g, si, li]))
                        return
    ck.note("largest table deviation %.2e" % worst)


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("numpy.interp with three arguments interpolates linearly and is constant outside the table (library contract)")
    ck.assume("the full two-sphere tables (scalars_general_resistance.npy) are data and taken as given; drag-only options off")
    ck.under_contract("XYZ", *NAMES)
    ck.bounds.append("table equality: every one of the shipped entries, in floating point to 1e-7")
    try:
        tab = ck.real.call(TABLES, {})
    except real.RealError as e:
        ck.violation("loading the tables raised %s" % str(e)[:200], dict(function="resistance_scalars.data", error=str(e)))
        return
    tables(ck, tab)
    if len(tab["xyz"].shape) != 4:
        return
    for k in range(len(NAMES)):
        for l in range(len(tab["lams"])):
            ck.guard("%s ratio %d" % (NAMES[k], l), deductive, ck, tab, k, l)
    rng = np.random.default_rng(ck.seed + 6)
    ask = []
    for n in NAMES:
        for g in range(2):
            for l in range(len(tab["lams"])):
                ss = list(tab["sr"][[0, 3, -1]]) + [1.2, 1.99, 2.0, 5.5] + list(rng.uniform(2, 4.5, 6)) + list(2 + 10 ** rng.uniform(-5, -1, 4))
                ask += [(n, g, float(s), l) for s in ss]
    look(ck, tab, ask, "lookup")
    # the right table for the pair: both roles through the assembled matrix
    T = spec_lub.Tables(tab["xyz"], tab["sr"], tab["lams"])
    for lam in [1., 10., .1, 100., .01]:
        for s in (1.99, 2.0003, 2.7, 3.99):
            u = rng.normal(size=3)
            u /= np.linalg.norm(u)
            a1 = float(rng.choice([1., .5, 2.]))
            pd = common.posdata_np([a1, a1 * lam], [[0, 0, 0], u * s * a1 * (1 + lam) / 2], [], [], [])
            if not c03.compare(ck, T, pd, 1., 2, "right table for the pair", "pair %g" % lam):
                return
