"""C20: randomly generated configurations never overlap and stay in their box."""
import contextlib
import io
import itertools
import time
import types
import numpy as np
import z3
from vc import ring, sym, common, facade, retry, rowmap, placing, lazyarr, real
from vc.ring import SR, GENS, Unsupported
from vc.sym import SI

MODULE = "setups.functions_positions"

CODE = '''
def f(a):
    import contextlib, io
    import setups.functions_positions as t

    class Stuck(Exception):
        pass
    rng = np.random.RandomState(a["seed"])
    hist, left, script = [], [a["draws"]], list(a.get("script") or [])

    def rand(*shape):
        """A random stream that often proposes points near earlier ones, near the edges, and exact directions."""
        left[0] -= 1
        if left[0] < 0:
            raise Stuck()
        n = int(np.prod(shape)) if shape else 1
        if script:
            v = np.array([script.pop(0) if script else rng.rand() for _ in range(n)])
        elif n == 3 and a["aim"] and hist and rng.rand() < .6:
            v = hist[rng.randint(len(hist))] + rng.normal(size=3) * np.array(a["aim"]) * rng.choice([.3, 1., 2.])
            v = v - np.floor(v)
        elif n == 1 and a["aim"] and rng.rand() < .3:
            v = np.array([rng.choice([0., .25, .5, .75, .999999])])
        else:
            v = rng.rand(n)
        v = np.clip(v, 0, 1 - 2. ** -53)
        if n == 3:
            hist.append(v.copy())
        return v.reshape(shape) if shape else float(v[0])
    keep = np.random.rand
    np.random.rand = rand
    args = [x.copy() if isinstance(x, np.ndarray) else (list(x) if isinstance(x, list) else x) for x in a["args"]]
    kw = {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in a["kw"].items()}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = getattr(t, a["fn"])(*args, **kw)
    except Stuck:
        return {"stuck": True}
    finally:
        np.random.rand = keep
    same = all(np.array_equal(x, y) for x, y in zip(args, a["args"])) and all(np.array_equal(kw[k], a["kw"][k]) for k in kw)
    out = [np.asarray(x, float) for x in (r if isinstance(r, tuple) else (r,))]
    return {"stuck": False, "out": out, "kept": bool(same)}
'''

SCOPE = "counts up to three new and two existing particles"


# ---- oracle on returned values -----------------------------------------------------

def faults(a, out):
    """What is wrong with the returned placement (None when nothing is)."""
    fn, s = a["fn"], a["spec"]
    tol = 1e-9
    lo, hi, sizes = np.array(s["lo"]), np.array(s["hi"]), np.array(s["sizes"])
    n = len(sizes)
    ex, er = np.array(s["ex"], float).reshape(-1, 3), np.array(s["er"], float)
    for x in out:
        if x.shape != (n, 3) or not np.all(np.isfinite(x)):
            return "shape of the result is %s, asked for %d particles" % (x.shape, n)
    if fn == "randomise_spheres":
        pts, own, rad = out[0], np.arange(n), sizes
        inside = pts
    else:
        pos, dx = out
        pts, own, rad = np.concatenate([pos - dx / 2, pos + dx / 2]), np.tile(np.arange(n), 2), np.tile(sizes, 2)
        inside = pts
        if s.get("dx") is not None:
            if np.any(np.abs(np.linalg.norm(dx, axis=1) - s["dx"]) > tol):
                return "a dumbbell does not have the requested length"
            for ang in ("theta", "phi"):
                if s.get(ang) is not None:
                    u = dx / s["dx"]
                    bad = np.abs(u[:, 2] - np.cos(s[ang])) > tol if ang == "theta" else np.abs(u[:, 0] * np.sin(s[ang]) - u[:, 1] * np.cos(s[ang])) > tol
                    if np.any(bad):
                        return "a dumbbell does not have the requested %s" % ang
    images = [np.zeros(3)]
    if fn == "randomise_dumbbells_periodic":
        # periodic in x and z: centres inside in these, first beads inside in y
        inside = np.array([[p[0], b[1], p[2]] for p, b in zip(pos, pts[:n])])
        D = hi - lo
        images = [np.array([m * D[0], 0, k * D[2]]) for m in range(-2, 3) for k in range(-2, 3)]
    if np.any(inside < lo - tol) or np.any(inside > hi + tol):
        return "a particle is outside the box"
    if s.get("quad") is not None:
        q = np.array(s["quad"])
        for p in pts:
            side = [(q[(k + 1) % 4][0] - q[k][0]) * (p[2] - q[k][1]) - (q[(k + 1) % 4][1] - q[k][1]) * (p[0] - q[k][0]) for k in range(4)]
            if not (min(side) >= -1e-7 or max(side) <= 1e-7):
                return "a bead is outside the quadrilateral"
    for i in range(len(pts)):
        for d in images:
            for j in range(len(pts)):
                if (own[j] == own[i] if s.get("quad") is None else j == i):
                    continue
                if np.linalg.norm(pts[i] - pts[j] - d) < rad[i] + rad[j] - tol:
                    return "two placed particles overlap (distance %.6g, radii %.6g and %.6g)" % (np.linalg.norm(pts[i] - pts[j] - d), rad[i], rad[j])
            for j in range(len(ex)):
                if np.linalg.norm(pts[i] - ex[j] - d) < rad[i] + er[j] - tol:
                    return "a placed particle overlaps one that was there before"
    return None


def check_real(ck, a, tag):
    try:
        got = ck.real.call(CODE, a, 120)
    except real.RealError as e:
        ck.evaluated((tag, repr(real.enc(a))[:500]))
        ck.violation("%s: raised %s" % (a["fn"], str(e)[:200]), dict(function=a["fn"], input=a, error=str(e), traceback=e.ans.get("tb")))
        return False
    if got["stuck"]:
        return None
    bad = faults(a, got["out"]) or (None if got["kept"] else "an argument was changed")
    ck.evaluated((tag, repr(real.enc(a))[:500]), dict(function=a["fn"], particles=len(a["spec"]["sizes"]), existing=len(a["spec"]["er"]), class_=tag))
    if bad:
        ck.violation("%s: %s" % (a["fn"], bad), dict(function=a["fn"], input=a, result=got["out"], fault=bad))
        return False
    return True


def args_of(fn, lo, hi, sizes, er, ex, dx=None, theta=None, phi=None, quad=None):
    er, ex = np.array(er, float), np.array(ex, float).reshape(-1, 3)
    spec = dict(lo=list(lo), hi=list(hi), sizes=list(sizes), er=er.tolist(), ex=ex.tolist(), dx=dx, theta=theta, phi=phi, quad=quad)
    if fn == "randomise_spheres":
        return dict(fn=fn, args=[list(lo), list(hi), np.array(sizes, float), er, ex], kw={}, spec=spec)
    if quad is not None:
        return dict(fn=fn, args=[np.array(quad, float), np.array(sizes, float), ex, float(er[0]) if len(er) else 1.], kw={}, spec=spec)
    kw = dict(dx=dx, current_sphere_sizes=er, current_sphere_positions=ex)
    if theta is not None:
        kw["theta"] = theta
    if phi is not None:
        kw["phi"] = phi
    return dict(fn=fn, args=[list(lo), list(hi), np.array(sizes, float)], kw=kw, spec=spec)


def existing(rng, lo, hi, radii):
    """Pre-existing spheres, apart from each other and mostly in the box."""
    out, keep = [], []
    for r in radii:
        for _ in range(200):
            p = lo + rng.uniform(-.1, 1.1, 3) * (hi - lo)
            if all(np.linalg.norm(p - q) > r + s for q, s in zip(out, keep)):
                out.append(p)
                keep.append(r)
                break
    return np.array(keep), np.array(out).reshape(-1, 3)


def example(rng, fn):
    flat = rng.random() < .5
    n = int(rng.choice([1, 2, 3, 6, 12, 20, 60], p=[.16, .16, .16, .16, .16, .16, .04]))
    r0 = float(rng.choice([1., .5, .1, .04]))
    sizes = rng.choice([1., .5, 2.], n) * r0 if rng.random() < .6 else np.full(n, r0)
    dx = float(r0 * rng.choice([1., 3., 10.]))
    # crowded: particles take about a tenth of the space
    beads = n if fn == "randomise_spheres" else 2 * n
    span = max((beads * 4 / 3. * np.pi * (1.3 * r0) ** 3 / .12) ** (1 / 3.), 5 * r0) if not flat else max((beads * np.pi * (1.3 * r0) ** 2 / .25) ** .5, 5 * r0)
    if fn != "randomise_spheres":
        span = max(span, 1.2 * dx if fn == "randomise_dumbbells" else 2 * dx + 5 * r0)
    D = span * rng.uniform(1., 1.4, 3)
    if flat:
        D[1] = 0
    lo = rng.uniform(-5, 5, 3)
    hi = lo + D
    er, ex = existing(rng, lo, hi, r0 * rng.choice([1., 2., .5], int(rng.integers(0, 4))))
    if fn != "randomise_beads_inside_quadrilateral" and rng.random() < .1:
        # many small ones in one place, so that a proposal can hit any number of them
        k = int(rng.integers(4, 14))
        at = lo + .5 * (hi - lo)
        er, ex = np.full(k, .01 * r0), at + rng.normal(size=(k, 3)) * .3 * r0
    kw = {}
    quad = None
    if fn == "randomise_beads_inside_quadrilateral":
        x0, z0, w, h = lo[0], lo[2], 2 * D[0], 2 * D[2]
        quad = np.array([[x0, z0], [x0 + w, z0 + rng.uniform(0, .3) * h], [x0 + rng.uniform(.7, 1) * w, z0 + h], [x0 + rng.uniform(0, .2) * w, z0 + rng.uniform(.7, 1) * h]])
        lo, hi = np.array([quad[:, 0].min(), 0, quad[:, 1].min()]), np.array([quad[:, 0].max(), 0, quad[:, 1].max()])
        ex[:, 1] = 0
        er = np.full(len(ex), r0)
        if rng.random() < .5:
            quad = quad[::-1]
    elif fn != "randomise_spheres":
        kw["dx"] = dx
        if rng.random() < .2:
            kw["theta"] = float(rng.choice([0., np.pi / 2, 1., 4.]))
        if flat or rng.random() < .2:
            kw["phi"] = 0. if flat else float(rng.choice([0., np.pi / 2, 2.]))
    a = args_of(fn, lo.tolist(), hi.tolist(), sizes.tolist(), er, ex, quad=None if quad is None else quad.tolist(), **kw)
    a["seed"], a["draws"] = int(rng.integers(2 ** 31)), 4000
    with np.errstate(all="ignore"):
        a["aim"] = (2 * r0 / np.maximum(hi - lo, 1e-9)).clip(0, .5).tolist() if rng.random() < .7 else []
    return a


# ---- symbolic layer ------------------------------------------------------------------

class Rand:
    """np.random with every outcome possible."""
    def __init__(self):
        self.draws = []

    def reset(self):
        self.draws = []

    def rand(self, *shape):
        def one():
            u = ring.free("u%d" % len(self.draws), nonneg=True)
            self.draws.append(u)
            sym.assume(u < 1)
            return u
        if not shape:
            return one()
        return common.oarr([one() for _ in range(int(np.prod(shape)))]).reshape(shape)

    random_sample = random = lambda self, size=None: self.rand(*(size if isinstance(size, tuple) else () if size is None else (size,)))

    def uniform(self, low=0, high=1, size=None):
        return low + self.random(size) * (high - low)


def setup_world(rnd):
    w = common.world()
    np_ = w.np
    norm0 = facade._Linalg.norm

    def norm(x, axis=None, ord=None):
        if axis is not None and getattr(facade.toarr(x), "ndim", 1) > 2:
            return retry.UNKNOWN         # the table of all distances is only printed
        return norm0(x, axis, ord)
    np_.linalg = types.SimpleNamespace(norm=norm)
    unk = lambda *a, **k: retry.UNKNOWN

    def stat(name):
        f = getattr(np_, name)
        return lambda x, *a, **k: retry.UNKNOWN if x is retry.UNKNOWN else f(x, *a, **k)
    for nm in ("min", "where", "nonzero", "mean"):
        setattr(np_, nm, stat(nm))
    np_.arccos = unk        # dumbbell pitch, only printed
    np_.random = rnd
    return w


def geq(ck, name, ctx, d, conc):
    """Obligation: d >= 0 on the path."""
    d = SR.lift(d)
    if ctx.subst:
        d = d.subs(ctx.subst)
    r = sym.real_cmp(d, ">=")
    if r is True:
        ck.record(name, "proved", "ring", 0.0, SCOPE)
        return True
    if r is not False:
        key, p, flip, al = sym._allowed(d)
        if {x * flip for x in al} <= {0, 1}:
            ck.record(name, "proved", "facts", 0.0, SCOPE)
            return True
    return solve(ck, name, ctx, lambda z: z(d) >= 0, conc)


def solve(ck, name, ctx, claim, conc):
    """z3, with a limit on the time spent on claims it cannot settle; those are left to the runs of the real code."""
    slow = ck.__dict__.setdefault("slow", [0])
    if slow[0] >= 8:
        ck.record(name, "undecided", "z3", 0.0, SCOPE, "not tried")
        conc(None, name)
        return False
    t = time.time()
    r = sym.entails(ctx, claim, 4000)
    ck.record(name, {True: "proved", False: "refuted", None: "undecided"}[r], "z3", time.time() - t, SCOPE)
    if not r:
        slow[0] += 1
        conc(None, name)
    return bool(r)


def frac(ck, name, ctx, e, conc):
    """Obligation: 0 <= e <= 1, by the contract of the floor it contains if there is one."""
    for g in e.gens():
        if GENS[g].kind == "fn" and GENS[g].fn == "floor" and (e - GENS[g].args[0] + SR.gen(GENS[g])).is_zero():
            ck.record(name, "proved", "floor contract", 0.0, SCOPE)
            return
    solve(ck, name, ctx, lambda z: z3.And(z(e) >= 0, z(e) <= 1), conc)


def dist(p, q):
    d = [SR.lift(x) - SR.lift(y) for x, y in zip(p, q)]
    return ring.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])


def unwrapped(v, D):
    """Value up to whole numbers of box lengths: floors may only enter as D * floor."""
    v = SR.lift(v)
    fl = [g for g in v.gens() if GENS[g].kind == "fn" and GENS[g].fn == "floor"]
    out = SR({m: c for m, c in v.t.items() if not any(g in fl for g, _ in m)})
    rest = v - out
    tot = SR.const(0)
    for g in fl:
        part = SR({m: c for m, c in rest.t.items() if any(h == g for h, _ in m)})
        k = part / (D * SR.gen(GENS[g]))
        if not k.is_const() or k.cval().denominator != 1:
            raise Unsupported("a centre is not shifted by whole box lengths")
        tot = tot + part
    if not (rest - tot).is_zero():
        raise Unsupported("a centre is not shifted by whole box lengths")
    return out


def symbolic(ck, fn, n, c, flat, angles):
    rnd = Rand()
    w = setup_world(rnd)
    m = w.load(MODULE)
    rule = retry.Retry()
    lo = common.oarr([ring.free("lo%d" % k) for k in range(3)])
    D = [ring.free("D0", pos=True), SR.const(0) if flat else ring.free("D1", pos=True), ring.free("D2", pos=True)]
    hi = common.oarr([x + d for x, d in zip(lo, D)])
    sizes = common.oarr([ring.free("a%d" % k, pos=True) for k in range(n)])
    er = common.oarr([ring.free("b%d" % k, pos=True) for k in range(c)]) if c else common.zarr(0)
    ex = common.sarr("x", c, 3) if c else common.zarr(0, 3)
    L = ring.free("dx", pos=True)
    kw = {}
    if fn != "randomise_spheres":
        kw = dict(dx=L, current_sphere_sizes=er, current_sphere_positions=ex)
        if "theta" in angles:
            kw["theta"] = ring.free("theta")
        if "phi" in angles:
            kw["phi"] = SR.const(0) if flat else ring.free("phi")

    def harness():
        rule.reset()
        rnd.reset()
        facade.HAVOC.clear()
        facade.AFTER.clear()
        facade.RETRY[0] = rule
        keep = [x.copy() for x in (lo, hi, sizes, er, ex)]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if fn == "randomise_spheres":
                    r = (m.randomise_spheres(lo, hi, sizes, er, ex),)
                else:
                    r = getattr(m, fn)(lo, hi, sizes, **kw)
        finally:
            facade.RETRY[0] = None
        return r, list(rnd.draws), all(retry.same(x, y) for x, y in zip(keep, (lo, hi, sizes, er, ex)))

    def explore():
        out = []
        for ctx, (kind, res) in sym.explore(harness, limit=6000, deadline=ck.deadline):
            out.append((ctx, kind, res))
        return out
    results = rule.run(explore)
    ck.under_contract(fn, "random_point_in_box", "overlaps_periodic" if "periodic" in fn else "overlaps")
    case = "%s, %d new, %d existing, %s%s" % (fn, n, c, "flat box" if flat else "box", "".join(", fixed " + x for x in angles))
    tried = []
    seen = 0
    for ctx, kind, res in results:
        if kind == "dead":
            ck.dead += 1
            continue
        ck.paths += 1
        if kind == "raise":
            st = sym.path_model(ctx)[0]
            if st == "unsat":
                continue
            raise Unsupported("%s raises %s: %s" % (case, type(res).__name__, str(res)[:100]))
        seen += 1
        sym.CTX = ctx
        out, draws, kept = res

        def conc(env, name):
            if tried:
                return
            tried.append(1)
            replay(ck, fn, n, c, flat, angles, ctx, draws)
        try:
            obligations(ck, case, fn, n, c, lo, hi, D, sizes, er, ex, L, kw, out, kept, ctx, conc)
        finally:
            sym.CTX = None
    if not seen:
        raise Unsupported("%s: vacuous" % case)
    if not rule.cuts:
        raise Unsupported("%s: no loop of tries met" % case)


def obligations(ck, case, fn, n, c, lo, hi, D, sizes, er, ex, L, kw, out, kept, ctx, conc):
    def ob(name, ok):
        ck.record("%s: %s" % (case, name), "proved" if ok else "refuted", "facts", 0.0, SCOPE)
        if not ok:
            conc(None, name)
    ob("arguments unchanged", kept)
    ob("one row of three for each particle", all(getattr(x, "shape", None) == (n, 3) for x in out))
    if not all(getattr(x, "shape", None) == (n, 3) for x in out):
        return
    half = SR.const(1) / 2
    images = [(0, 0)]
    if fn == "randomise_spheres":
        parts = [(i, out[0][i], sizes[i]) for i in range(n)]
        inside = [p for _, p, _ in parts]
    else:
        pos, dx = out
        if "periodic" in fn:
            for i in range(n):
                for k in (0, 2):
                    frac(ck, "%s: centre %d inside (%d)" % (case, i, k), ctx, (pos[i][k] - lo[k]) / D[k], conc)
            pos = [[unwrapped(pos[i][k], D[k]) if k != 1 else pos[i][k] for k in range(3)] for i in range(n)]
            images = list(itertools.product((-1, 0, 1), repeat=2))
        parts = []
        for i in range(n):
            for sgn in (-1, 1):
                parts.append((i, [SR.lift(pos[i][k]) + sgn * half * dx[i][k] for k in range(3)], sizes[i]))
            ck.zero("%s: length of dumbbell %d" % (case, i), sum((SR.lift(x) * x for x in dx[i]), SR.const(0)) - L * L, ctx, conc, scope=SCOPE)
            if "theta" in kw:
                ck.zero("%s: theta of dumbbell %d" % (case, i), dx[i][2] - L * ring.cos(kw["theta"]), ctx, conc, scope=SCOPE)
            if "phi" in kw:
                ck.zero("%s: phi of dumbbell %d" % (case, i), dx[i][0] * ring.sin(kw["phi"]) - dx[i][1] * ring.cos(kw["phi"]), ctx, conc, scope=SCOPE)
        inside = [p for _, p, _ in parts]
    for q, p in enumerate(inside):
        for k in range(3):
            if "periodic" in fn and (q % 2 or k != 1):
                continue
            geq(ck, "%s: particle %d above the bottom (%d)" % (case, q, k), ctx, SR.lift(p[k]) - lo[k], conc)
            geq(ck, "%s: particle %d below the top (%d)" % (case, q, k), ctx, hi[k] - p[k], conc)
    for (i, p, a), (j, q, b) in itertools.combinations(parts, 2):
        if i != j:
            for s, t in images:
                geq(ck, "%s: particles %d and %d apart%s" % (case, i, j, "" if len(images) == 1 else " (image %d, %d)" % (s, t)), ctx,
                    dist([p[0] - s * D[0], p[1], p[2] - t * D[2]], q) - a - b, conc)
    for i, p, a in parts:
        for j in range(c):
            for s, t in images:
                geq(ck, "%s: particle %d apart from existing %d%s" % (case, i, j, "" if len(images) == 1 else " (image %d, %d)" % (s, t)), ctx,
                    dist([p[0] - s * D[0], p[1], p[2] - t * D[2]], ex[j]) - a - er[j], conc)


class Trial:
    """Obligations of a proof that is only reported when all of it succeeds."""
    def __init__(self, ck):
        self.ck, self.ob, self.rng = ck, [], ck.rng

    def record(self, name, status, backend, secs=0.0, scope="unbounded", detail=""):
        if status != "proved":
            raise Unsupported("not proved: %s" % name)
        self.ob.append((name, status, backend, secs, "unbounded", detail))

    def zero(self, name, e, ctx):
        e = SR.lift(e)
        if ctx.subst:
            e = e.subs(ctx.subst)
        self.record(name, "proved" if e.is_zero() else "undecided", "ring")


def rows_of(x, i):
    """Row i of a returned array, as elements of the arrays filled by the loop."""
    if not isinstance(x, lazyarr.LArr) or x.ndim != 2 or x.shape[1] != 3:
        raise Unsupported("a result is not an array with a row for each particle")
    return [SR.lift(x.get((i, c))) for c in range(3)]


def any_number(ck, fn, flat, angles):
    """Any numbers of new and existing particles, one arbitrary step of the placement."""
    rnd = Rand()
    w = setup_world(rnd)
    np_ = w.np
    for nm in ("sum", "dot", "abs"):
        f = getattr(np_, nm)
        setattr(np_, nm, lambda *a, f=f, **k: retry.UNKNOWN if any(x is retry.UNKNOWN or isinstance(x, lazyarr.LArr) for x in a) else f(*a, **k))
    m = w.load(MODULE)
    N, C = SI.var("N"), SI.var("C")
    lo = common.oarr([ring.free("lo%d" % k) for k in range(3)])
    D = [ring.free("D0", pos=True), SR.const(0) if flat else ring.free("D1", pos=True), ring.free("D2", pos=True)]
    hi = common.oarr([x + d for x, d in zip(lo, D)])
    sizes, er, ex = rowmap.array("a", (N,), True), rowmap.array("b", (C,), True), rowmap.array("x", (C, 3))
    L = ring.free("dx", pos=True)
    kw = {}
    if fn != "randomise_spheres":
        kw = dict(dx=L, current_sphere_sizes=er, current_sphere_positions=ex)
        if "theta" in angles:
            kw["theta"] = ring.free("theta")
        if "phi" in angles:
            kw["phi"] = SR.const(0) if flat else ring.free("phi")
    periodic = "periodic" in fn
    case = "%s, any numbers, %s%s" % (fn, "flat box" if flat else "box", "".join(", fixed " + x for x in angles))
    trial = Trial(ck)
    rule = retry.Retry()
    plc = placing.Placing(rule, N, C)
    images = list(itertools.product((-1, 0, 1), repeat=2)) if periodic else [(0, 0)]
    half = SR.const(1) / 2

    def call(mode, target):
        rule.reset()
        rnd.reset()
        plc.reset(mode, target)
        facade.HAVOC.clear()
        facade.AFTER.clear()
        sym.iassume(z3.And(N.z() >= 1, C.z() >= 0))
        facade.RETRY[0], facade.LOOP_HOOK[0] = rule, plc
        keep = [x.copy() for x in (lo, hi)]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if fn == "randomise_spheres":
                    r = (m.randomise_spheres(lo, hi, sizes, er, ex),)
                else:
                    r = getattr(m, fn)(lo, hi, sizes, **kw)
        except lazyarr.BodyEnd:
            r = None
        finally:
            facade.RETRY[0] = facade.LOOP_HOOK[0] = None
        if not all(retry.same(x, y) for x, y in zip(keep, (lo, hi))):
            raise Unsupported("the box is changed")
        return r

    def explored(harness):
        for ctx, (kind, res) in sym.explore(harness, limit=6000, deadline=ck.deadline):
            if kind == "dead":
                ck.dead += 1
                continue
            if kind == "raise":
                if sym.path_model(ctx)[0] == "unsat":
                    continue
                raise Unsupported("%s raises %s: %s" % (case, type(res).__name__, str(res)[:100]))
            yield ctx, res

    # the code after the loop: what the results are made of
    def after():
        sym.iassume(z3.And(plc_i.z() >= 0, plc_i.z() < N.z()))
        r = call("after", None)
        if r is None or not plc.passed:
            raise Unsupported("no loop over the new particles met")
        shapes = all(isinstance(x, lazyarr.LArr) and placing.equal(x.shape[0], N) for x in r)
        return [rows_of(x, plc.i) for x in r], shapes
    plc_i = SI.var("i")
    made = None
    for ctx, (rows, shapes) in explored(after):
        ck.paths += 1
        trial.record("%s: one row for each particle" % case, "proved" if shapes else "refuted", "facts")
        if made is None:
            made = rows
        elif not retry.same(made, rows):
            raise Unsupported("results depend on more than the placed rows")
    if made is None or len(made) != (1 if fn == "randomise_spheres" else 2):
        raise Unsupported("%s: vacuous" % case)

    def value(e):
        """An element of the results once the iteration has ended."""
        sub = {}
        for g in e.gens():
            mt = GENS[g].meta
            if not (isinstance(mt, tuple) and mt[0] == "elt"):
                continue
            if mt[1] == "placed":
                (old, new), = plc.grown.values()
                sub[g] = SR.lift(new.get((lazyarr.canon(SI.lift(mt[2][0]) + C),) + tuple(mt[2][1:])))
            elif mt[1][0] == "A" and mt[1][1:].isdigit():
                sub[g] = SR.lift(plc.arrays[int(mt[1][1:])].get(mt[2]))
        return e.subs(sub)

    def beads(pos, dx):
        return [[pos[k] + s * half * dx[k] for k in range(3)] for s in (-1, 1)]

    def body(target):
        def harness():
            r = call("body", target)
            if r is not None:
                raise Unsupported("no loop over the new particles met")
            i, claims = plc.i, []
            if not plc.own_rows():
                raise Unsupported("an iteration writes rows that are not its own")
            for old, new in plc.grown.values():
                if not isinstance(new, lazyarr.LArr) or not placing.equal(new.shape[0], old.shape[0] + 1):
                    raise Unsupported("an iteration does not add one row")
                at = plc.e if target[0] == "existing" else lazyarr.canon(SI.lift(C) + plc.d) if target[0] == "placed" else None
                for c in range(3) if at is not None else ():
                    claims.append(("zero", "rows placed before are kept (%d)" % c, new.get((at, c)) - old.get((at, c))))
            now = [[value(e) for e in row] for row in made]
            if periodic:
                if target[0] == "none":
                    for k in (0, 2):
                        claims.append(("frac", "centre inside (%d)" % k, (now[0][k] - lo[k]) / D[k]))
                now[0] = [unwrapped(now[0][k], D[k]) if k != 1 else now[0][k] for k in range(3)]
            pts = [now[0]] if fn == "randomise_spheres" else beads(*now)
            a = sizes.get((i,))
            if target[0] == "none":
                if fn != "randomise_spheres":
                    dx = now[1]
                    claims.append(("zero", "length of the dumbbell", sum((x * x for x in dx), SR.const(0)) - L * L))
                    if "theta" in kw:
                        claims.append(("zero", "theta of the dumbbell", dx[2] - L * ring.cos(kw["theta"])))
                    if "phi" in kw:
                        claims.append(("zero", "phi of the dumbbell", dx[0] * ring.sin(kw["phi"]) - dx[1] * ring.cos(kw["phi"])))
                for q, p in enumerate(pts):
                    for k in range(3):
                        if not periodic or q == 0 and k == 1:
                            claims.append(("geq", "particle %d above the bottom (%d)" % (q, k), p[k] - lo[k]))
                            claims.append(("geq", "particle %d below the top (%d)" % (q, k), hi[k] - p[k]))
                return claims
            if target[0] == "existing":
                there, b = [ex.get((plc.e, k)) for k in range(3)], er.get((plc.e,))
            else:
                there, b = before(target[1], pts), sizes.get((plc.d,))
            for q, p in enumerate(pts):
                for s, t in images:
                    claims.append(("geq", "particle %d apart from %s%s" % (q, "any existing one" if target[0] == "existing" else "any placed before",
                                                                          "" if len(images) == 1 else " (image %d, %d)" % (s, t)),
                                   dist([p[0] - s * D[0], p[1], p[2] - t * D[2]], there) - a - b))
            return claims
        return harness

    def before(h, pts):
        """Bead h of an arbitrary particle placed before."""
        if len(pts) > 1:
            # an array that keeps the beads of each particle, as this iteration shows
            for k, x in enumerate(plc.arrays):
                if not placing.equal(x.shape[0], SI.lift(N) * 2):
                    continue
                got = [[SR.lift(x.get((lazyarr.canon(plc.i * 2 + g), c))) for c in range(3)] for g in (0, 1)]
                if any(all((u - v).is_zero() for u, v in zip(got[0], pts[g])) and all((u - v).is_zero() for u, v in zip(got[1], pts[1 - g])) for g in (0, 1)):
                    return [rowmap.elt("A%d" % k, (lazyarr.canon(plc.d * 2 + h), c)) for c in range(3)]
        old = [[rowmap.reindex(e, "i", plc.d) for e in row] for row in made]
        return old[0] if len(pts) == 1 else beads(*old)[h]

    def everything():
        out = []
        for target in [("none",), ("existing",)] + [("placed", h) for h in range(1 if fn == "randomise_spheres" else 2)]:
            n = 0
            for ctx, claims in explored(body(target)):
                n += 1
                out.append((ctx, target, claims))
            if not n:
                raise Unsupported("%s: vacuous for %s" % (case, target[0]))
        return out
    paths = rule.run(everything)
    if not rule.cuts:
        raise Unsupported("%s: no loop of tries met" % case)
    fail = lambda *a: None
    for ctx, target, claims in paths:
        ck.paths += 1
        sym.CTX = ctx
        try:
            for kind, name, e in claims:
                name = "%s: %s" % (case, name)
                if kind == "zero":
                    trial.zero(name, e, ctx)
                elif kind == "geq":
                    geq(trial, name, ctx, e, fail)
                else:
                    frac(trial, name, ctx, e, fail)
        finally:
            sym.CTX = None
    ck.ob += trial.ob
    ck.under_contract(fn, "random_point_in_box", "overlaps_periodic" if periodic else "overlaps")


def any_quadrilateral(ck):
    """Beads in a quadrilateral, any numbers: one arbitrary bead against one arbitrary bead or sphere already there."""
    fn = "randomise_beads_inside_quadrilateral"
    rnd = Rand()
    w = setup_world(rnd)
    m = w.load(MODULE)
    corners = common.sarr("q", 4, 2)
    ends = {}

    def extreme(name):
        def f(x, *a, **k):
            key = (name, repr(facade.toarr(x).ravel().tolist()))
            return ends.setdefault(key, ring.free("%s%d" % (name, len(ends))))
        return f
    w.np.min, w.np.max = extreme("least"), extreme("most")      # only bound the proposals
    asked = []

    def inside(x, y, poly):
        """Callee: its answer for these coordinates and this polygon."""
        ans = bool(sym.CTX.decide("inside"))
        asked.append((SR.lift(x), SR.lift(y), poly, ans))
        return ans
    m.point_inside_polygon = inside
    N, C = SI.var("N"), SI.var("C")
    sizes, ex, b = rowmap.array("a", (N,), True), rowmap.array("x", (C, 3)), ring.free("b", pos=True)
    case = "%s, any numbers" % fn
    trial = Trial(ck)
    rule = retry.Retry()
    plc = placing.Placing(rule, N, C, per=2)
    k, kd = SI.var("k"), SI.var("kd")

    def call(mode, target, g=0, h=0):
        rule.reset()
        rnd.reset()
        del asked[:]
        plc.reset(mode, target)
        plc.i, plc.d = lazyarr.canon(k * 2 + g), lazyarr.canon(kd * 2 + h)
        facade.HAVOC.clear()
        facade.AFTER.clear()
        sym.iassume(z3.And(N.z() >= 1, C.z() >= 0, k.z() >= 0, k.z() < N.z()))
        facade.RETRY[0], facade.LOOP_HOOK[0] = rule, plc
        keep = corners.copy()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = getattr(m, fn)(corners, sizes, ex, b)
        except lazyarr.BodyEnd:
            r = None
        finally:
            facade.RETRY[0] = facade.LOOP_HOOK[0] = None
        if not retry.same(keep, corners):
            raise Unsupported("the corners are changed")
        return r

    def explored(harness):
        for ctx, (kind, res) in sym.explore(harness, limit=6000, deadline=ck.deadline):
            if kind == "dead":
                ck.dead += 1
                continue
            if kind == "raise":
                if sym.path_model(ctx)[0] == "unsat":
                    continue
                raise Unsupported("%s raises %s: %s" % (case, type(res).__name__, str(res)[:100]))
            yield ctx, res

    def after():
        r = call("after", None)
        if r is None or not plc.passed or len(plc.arrays) != 1:
            raise Unsupported("no loop over the beads met")
        pos, dx = [rows_of(x, k) for x in r]
        return [pos[c] + s * dx[c] / 2 - rowmap.elt("A0", (lazyarr.canon(k * 2 + g), c)) for g, s in ((0, -1), (1, 1)) for c in range(3)], \
            all(placing.equal(x.shape[0], N) for x in r)
    n = 0
    for ctx, (zeros, shapes) in explored(after):
        n += 1
        ck.paths += 1
        trial.record("%s: one row for each dumbbell" % case, "proved" if shapes else "refuted", "facts")
        for e in zeros:
            trial.zero("%s: dumbbells made of the placed beads" % case, e, ctx)
    if not n:
        raise Unsupported("%s: vacuous" % case)

    def body(target, g, h):
        def harness():
            if call("body", target, g, h) is not None or not plc.own_rows():
                raise Unsupported("an iteration does not place its bead in its own row")
            p = [SR.lift(plc.arrays[0].get((plc.i, c))) for c in range(3)]
            a = sizes.get((k,))
            if target[0] == "none":
                ok = any(ans and poly is corners and (x - p[0]).is_zero() and (y - p[2]).is_zero() for x, y, poly, ans in asked)
                return [("fact", "bead accepted by point_inside_polygon", ok), ("zero", "bead in the plane", p[1])]
            if target[0] == "existing":
                there, c = [ex.get((plc.e, c)) for c in range(3)], b
            else:
                there, c = [rowmap.elt("A0", (plc.d, c)) for c in range(3)], sizes.get((kd,))
            return [("geq", "bead apart from %s" % ("any existing sphere" if target[0] == "existing" else "any bead placed before"), dist(p, there) - a - c)]
        return harness

    def everything():
        out = []
        for target in (("none",), ("existing",), ("placed", 0)):
            for g in (0, 1):
                for h in (0, 1) if target[0] == "placed" else (0,):
                    got = [(ctx, claims) for ctx, claims in explored(body(target, g, h))]
                    if not got:
                        raise Unsupported("%s: vacuous for %s" % (case, target[0]))
                    out += got
        return out
    paths = rule.run(everything)
    if not rule.cuts:
        raise Unsupported("%s: no loop of tries met" % case)
    for ctx, claims in paths:
        ck.paths += 1
        sym.CTX = ctx
        try:
            for kind, name, e in claims:
                name = "%s: %s" % (case, name)
                if kind == "zero":
                    trial.zero(name, e, ctx)
                elif kind == "fact":
                    trial.record(name, "proved" if e else "refuted", "facts")
                else:
                    geq(trial, name, ctx, e, lambda *a: None)
        finally:
            sym.CTX = None
    ck.ob += trial.ob
    ck.under_contract(fn, "random_point_in_box", "overlaps")
    ck.assume("point_inside_polygon answers True only inside the polygon: not proved, evaluated on the real code only")


def replay(ck, fn, n, c, flat, angles, ctx, draws):
    """Drive the real code with random streams of the failing kind of case."""
    rng = np.random.default_rng(ck.seed + 7)
    for _ in range(400):
        a = example(rng, fn)
        if check_real(ck, a, "replay") is False:
            return True
    return False


def run(ck):
    ck.assume("exact real arithmetic; every random number is an arbitrary value in [0, 1)")
    ck.assume("at least one particle is to be placed")
    ck.assume("periodic placement: existing spheres have their centres in the box, and the box is at least two dumbbell lengths and two radii wide, "
              "so that only neighbouring images can touch")
    cases = [("randomise_spheres", n, c, flat, ()) for n, c in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 2)) for flat in (True, False)]
    cases += [("randomise_dumbbells", n, c, flat, ang) for n, c in ((1, 0), (1, 1), (2, 0), (2, 1))
              for flat, ang in ((True, ("phi",)), (False, ()), (False, ("theta",)), (False, ("theta", "phi")))]
    cases += [("randomise_dumbbells_periodic", n, c, flat, ang) for n, c in ((1, 0), (1, 1), (2, 0))
              for flat, ang in ((True, ("phi",)), (False, ()))]
    done = {}
    for cs in cases:
        key = (cs[0],) + cs[3:]
        if key not in done:
            done[key] = ck.guard("%s, any numbers" % (key,), any_number, ck, *key)
        if not done[key]:
            if SCOPE not in ck.bounds:
                ck.bounds.append(SCOPE)
            ck.guard("%s %d %d %s %s" % cs, symbolic, ck, *cs)
    ck.guard("beads in a quadrilateral, any numbers", any_quadrilateral, ck)
    rng = np.random.default_rng(ck.seed)
    stuck = 0
    for fn, k in (("randomise_spheres", 120), ("randomise_dumbbells", 160), ("randomise_dumbbells_periodic", 120), ("randomise_beads_inside_quadrilateral", 60)):
        for _ in range(k if ck.quick else 5 * k):
            if check_real(ck, example(rng, fn), "random") is None:
                stuck += 1
    if stuck:
        ck.note("%d placements did not finish within their draws and were left out" % stuck)
