"""C21: near-field resistance functions respect exchange of the two spheres."""
import os
import numpy as np
from vc import ring, sym, common, facade, loader, real
from vc.ring import SR, Unsupported

LEVEL = "proof"
DIR = "find_resistance_scalars"
NAMES = [x + k + y for x, y in (("X", "A"), ("Y", "A"), ("Y", "B"), ("X", "C"), ("Y", "C"), ("X", "G"), ("Y", "G"), ("Y", "H"), ("X", "M"), ("Y", "M"), ("Z", "M"))
         for k in ("11", "12")]
EXCHANGE = (("X12A", 1), ("Y12A", 1), ("X12C", 3), ("Y12C", 3), ("X12M", 3), ("Y12M", 3), ("Z12M", 3))
ORDERS = ("1/xi", "log(1/xi)", "xi log(1/xi)")

CODE = '''
def f(a):
    import sys
    p = os.path.join(REPO, "find_resistance_scalars")
    if p not in sys.path:
        sys.path.insert(0, p)
    import functions_nearfield as g
    # whole sums take minutes: they are cut short here (they only enter the constant terms)
    old = {}
    for n in ("intermediate_sum", "intermediate_sum_no_f0_coeff"):
        if hasattr(g, n):
            old[n] = getattr(g, n)
            setattr(g, n, (lambda o: lambda f0, f1, f2, f3, parity, lam, N=100: o(f0, f1, f2, f3, parity, lam, min(N, a["terms"])))(old[n]))
    try:
        for n in dir(g):
            if hasattr(getattr(g, n), "cache_clear") and n[0] in "XYZACGHMB":
                getattr(g, n).cache_clear()
        return {"v": np.array([[float(getattr(g, n)(x, a["lam"])) for x in a["xi"]] for n in a["names"]])}
    finally:
        for n in old:
            setattr(g, n, old[n])
import os
'''


def relations(c, ci, lam, half):
    """Identities between the singular coefficients.

    c[name], ci[name]: coefficients (1/xi, log, xi log) at lam and 1/lam, in units of 6 pi a1 (A), 4 pi a1^2 (B, G),
    8 pi a1^3 (C, H), 20 pi a1^3/3 (M), mu = 1; half = 1/2.  Yields (name, triple that must vanish)."""
    def comb(*terms):
        out = [0, 0, 0]
        for k, s in terms:
            out = [o + k * x for o, x in zip(out, s)]
        return out

    def sep(s):
        """Times the centre distance in units of a1 + a2, 1 + xi/2 (singular terms only)."""
        return [s[0], s[1], s[2] + half * s[1]]
    # reciprocity and exchange of the labels: R12(a1, a2) = R21(a1, a2), and R21 is R12 with the radii exchanged
    for k, p in EXCHANGE:
        yield "exchange of the spheres, %s" % k, comb((1, c[k]), (-lam ** p, ci[k]))
    # a common translation of both spheres, a common rotation or strain about the line of centres: nothing singular
    for n in ("XA", "YA", "YB", "XG", "YG", "XC", "ZM"):
        yield "common motion, %s11 and %s12" % (n, n), comb((1, c[n[0] + "11" + n[1]]), (1, c[n[0] + "12" + n[1]]))
    # rotation of the pair as one body about the centre of sphere 1: no singular force, torque or stresslet on sphere 1
    yield "pair turning as one, force", comb((6 * (1 + lam), sep(c["Y12A"])), (-4, c["Y11B"]), (4 * lam ** 2, ci["Y12B"]))
    yield "pair turning as one, torque", comb((-4 * (1 + lam), sep(c["Y12B"])), (8, c["Y11C"]), (8, c["Y12C"]))
    yield "pair turning as one, stresslet", comb((4 * (1 + lam), sep(c["Y12G"])), (8, c["Y11H"]), (8, c["Y12H"]))
    # both surfaces moving with one linear strain field about the centre of sphere 1
    yield "pair straining as one, axial force", comb((6 * (1 + lam), sep(c["X12A"])), (4, c["X11G"]), (-4 * lam ** 2, ci["X12G"]))
    yield "pair straining as one, transverse force", comb((3 * (1 + lam), sep(c["Y12A"])), (4, c["Y11G"]), (-4 * lam ** 2, ci["Y12G"]))
    yield "pair straining as one, torque", comb((2 * (1 + lam), sep(c["Y12B"])), (-8, c["Y11H"]), (-8 * lam ** 3, ci["Y12H"]))
    yield "pair straining as one, axial stresslet", comb((2 * (1 + lam), sep(c["X12G"])), (5, c["X11M"]), (5, c["X12M"]))
    yield "pair straining as one, transverse stresslet", comb((3 * (1 + lam), sep(c["Y12G"])), (5, c["Y11M"]), (5, c["Y12M"]))


TERMS = 24
XI = [.125, .5, 2., 8.]


def coefficients(ck, lam):
    """Singular coefficients of the real functions: each is g1/xi + g2 L + g0 + g3 xi L, exactly, so four values give them."""
    v = ck.real.call(CODE, dict(names=NAMES, xi=XI, lam=lam, terms=TERMS), 300)["v"]
    L = [np.log(1 / x) for x in XI]
    A = np.array([[1 / x, l, 1, x * l] for x, l in zip(XI, L)])
    g = np.linalg.solve(A, v.T).T
    return {n: [q[0], q[1], q[3]] for n, q in zip(NAMES, g)}, {n: q[2] for n, q in zip(NAMES, g)}, v


def check_real(ck, lam, tag):
    try:
        c, k, v = coefficients(ck, lam)
        ci, ki, vi = coefficients(ck, 1 / lam)
    except real.RealError as e:
        ck.violation("near-field functions raised %s" % str(e)[:200], dict(function="functions_nearfield", input=dict(lam=lam), error=str(e)))
        return False
    ck.evaluated((tag, lam), dict(lam=lam, class_=tag))
    ok = True
    size = lambda *x: max(1e-3, max(abs(y) for z in x for y in z))
    for (name, d), (_, mag) in zip(relations(c, ci, lam, .5), relations({n: [abs(y) for y in x] for n, x in c.items()},
                                                                      {n: [abs(y) for y in x] for n, x in ci.items()}, lam, .5)):
        sc = max(size(mag), max(size(x) for x in c.values()) * 1e-3)
        for o, x in zip(ORDERS, d):
            if not abs(x) <= 1e-7 * sc:
                ok = False
                ck.violation("%s: the coefficients of %s do not agree" % (name, o),
                             dict(function="functions_nearfield", input=dict(lam=lam), difference=x, coefficients=c, coefficients_exchanged=ci),
                             key="%s %s" % (name, o))
    for n, p in EXCHANGE:
        k = NAMES.index(n)
        if not np.max(np.abs(v[k] - lam ** p * vi[k])) <= 1e-7 * np.max(np.abs(v[k])):
            ok = False
            ck.violation("%s is not the same function after exchange of the spheres" % n,
                         dict(function="functions_nearfield", input=dict(lam=lam, xi=XI, terms=TERMS), got=v[k], exchanged=lam ** p * vi[k]))
    return ok


def whole(ck):
    """Exchange of the complete functions, constants included, with the sums cut at a few terms."""
    N = 16
    xi, L = ring.free("xi", pos=True), ring.free("L")
    lam = ring.free("lam", pos=True)
    w = loader.World(facade.NPFacade(), {"functions_nearfield": {"log": lambda x: log(x, xi, L)}}, [os.path.join(loader.REPO, DIR)])
    m = w.load("functions_nearfield")
    for n in ("intermediate_sum", "intermediate_sum_no_f0_coeff"):
        def cut(f0, f1, f2, f3, parity, l, K=100, orig=getattr(m, n)):
            return orig(f0, f1, f2, f3, parity, l, min(K, N))
        setattr(m, n, cut)
    tried = []

    def conc(env, name):
        if not tried:
            tried.append(1)
            for l in (2., .3):
                check_real(ck, l, "counterexample")
    for n, p in EXCHANGE:
        f = getattr(m, n)
        ck.zero("%s is the same function after exchange of the spheres" % n, SR.lift(f(xi, lam)) - lam ** p * f(xi, 1 / lam), None, conc,
                scope="sums cut at %d terms" % N)
    ck.bounds.append("complete functions: sums over the recurrence coefficients cut at %d terms" % N)


def log(x, xi, L):
    x = SR.lift(x)
    if (x * xi - 1).is_zero():
        return L
    if not x.is_const():
        raise Unsupported("logarithm of something else than 1/xi")
    return ring.func("log", x)


def deductive(ck):
    xi, L = ring.free("xi", pos=True), ring.free("L")
    lam = ring.free("lam", pos=True)
    sums = {}

    def const(tag):
        return lambda *a, **k: sums.setdefault((tag,) + tuple(getattr(x, "__name__", x) if not isinstance(x, SR) else tuple(sorted(x.t.items())) for x in a),
                                               ring.free("sum%d" % len(sums)))
    w = loader.World(facade.NPFacade(), {"functions_nearfield": {
        "log": lambda x: log(x, xi, L), "zeta": const("zeta"), "intermediate_sum": const("sum"), "intermediate_sum_no_f0_coeff": const("sum2")}},
        [os.path.join(loader.REPO, DIR)])
    m = w.load("functions_nearfield")
    gx, gl = common.gid(xi), common.gid(L)
    z = SR.const(0)

    def coef(f, l):
        e = SR.lift(f(xi, l))
        reg = e.subs({gl: z}) * xi
        sing = e.diff(L)
        g1 = reg.subs({gx: z})
        g2 = sing.subs({gx: z})
        g3 = sing.diff(xi).subs({gx: z})
        rest = e - g1 / xi - g2 * L - g3 * xi * L
        ck.zero("%s has the singular terms 1/xi, log and xi log only" % f.__name__, rest.diff(L), None)
        ck.zero("%s: remainder does not depend on xi" % f.__name__, rest.diff(xi), None)
        return [g1, g2, g3]
    tried = []

    def conc(env, name):
        if not tried:
            tried.append(1)
            for l in (2., .5, 7., .13, 1.):
                check_real(ck, l, "counterexample")
    c = {n: coef(getattr(m, n), lam) for n in NAMES}
    ci = {n: coef(getattr(m, n), 1 / lam) for n in NAMES}
    for name, d in relations(c, ci, lam, SR.const(1) / 2):
        for o, x in zip(ORDERS, d):
            if "%s %s" % (name, o) in ck.kf:
                conc(None, name)
                continue
            ck.zero("%s [%s]" % (name, o), x, None, conc)
    ck.under_contract(*NAMES)
    ck.under_contract(*sorted(n for n in vars(m) if n[:1] == "G" and n[1:2].isdigit()))


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("the truncated sums over the recurrence coefficients, the zeta values and log 2 are unknown constants: the statement is about the singular terms")
    ck.assume("two surfaces that move with one continuous linear velocity field have no singular relative motion in the gap (lubrication theory)")
    ck.guard("near-field coefficients", deductive, ck)
    ck.guard("complete functions", whole, ck)
    rng = np.random.default_rng(ck.seed + 21)
    for lam in [1., 2., .1, 10., 100., .37] + list(np.exp(rng.uniform(-2.5, 2.5, 4 if ck.quick else 40))):
        check_real(ck, float(lam), "random")
