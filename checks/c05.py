"""C05: neighbour search finds exactly the pairs within the cutoff."""
import itertools
import time
import numpy as np
import z3
from vc import ring, sym, facade, common, real, lazyarr, pairsum, pairlist, rowmap
from vc.ring import SR, GENS, Unsupported
from vc.sym import SI
from vc.common import oarr, zarr, gid

LEVEL = "proof"
MODULE = "functions.shared"

CLOSE = '''
def f(a):
    import functions.shared as s
    kw = {k: a[k] for k in ("box_bottom_left", "box_top_right", "Ot_infinity", "Et_infinity") if k in a}
    p, z = a["pos"].copy(), a["sizes"].copy()
    pr, di, ds, ra = s.close_particles(p, z, a["cutoff"], **kw)
    ok = np.array_equal(p, a["pos"]) and np.array_equal(z, a["sizes"])
    return {"pairs": np.asarray(pr, dtype=float).reshape(-1, 2), "disp": np.asarray(di, dtype=float).reshape(-1, 3),
            "dist": np.asarray(ds, dtype=float).ravel(), "ratio": np.asarray(ra, dtype=float).ravel(), "same": ok}
'''


def sheared_basis(L, Ot, Et):
    """Rows: box vectors carried by the accumulated shear, extra modulo the box."""
    B = np.zeros((3, 3))
    for i in range(3):
        e = np.zeros(3)
        e[i] = L[i]
        w = np.array([Ot[1] * e[2] - Ot[2] * e[1], Ot[2] * e[0] - Ot[0] * e[2], Ot[0] * e[1] - Ot[1] * e[0]]) + Et @ e
        B[i] = e + (w - L * np.floor(w / L))
    return B


def oracle(inp):
    pos, a, cut = inp["pos"], inp["sizes"], 2 * inp["cutoff"]
    per = "box_top_right" in inp
    if per:
        L = inp["box_top_right"] - inp["box_bottom_left"]
        B = sheared_basis(L, inp["Ot_infinity"], inp["Et_infinity"])
        Bi = np.linalg.inv(B)
    out, edge = {}, False
    for u in range(len(a)):
        for v in range(u, len(a)):
            r = pos[v] - pos[u]
            if per:
                f = r @ Bi
                if u != v and np.any(np.abs(np.abs(f - np.floor(f)) - .5) < 1e-9):
                    edge = True
                r = (f - np.floor(f + .5)) @ B if u != v else np.zeros(3)
            m = (a[u] + a[v]) / 2
            s = np.linalg.norm(r) / m
            if abs(s - cut) < 1e-9:
                edge = True
            if s <= cut:
                out[u, v] = (r / m, s, a[v] / a[u])
    return out, edge


def compare(ck, inp, what, tag):
    exp, edge = oracle(inp)
    if edge:
        return True
    try:
        g = ck.real.call(CLOSE, inp)
    except real.RealError as e:
        ck.violation("close_particles raised %s" % e, dict(function="close_particles", input=inp, error=str(e)))
        return False
    ck.evaluated((tag, len(inp["sizes"]), tuple(np.round(inp["pos"].ravel(), 9)), inp["cutoff"]),
                 dict(beads=len(inp["sizes"]), pairs=len(exp), class_=tag))
    rep = dict(function="close_particles", input=inp)

    def bad(msg, **k):
        ck.violation("%s (%s)" % (msg, what), dict(rep, **k))
        return False
    if not g["same"]:
        return bad("neighbour search modified its input")
    n = len(g["pairs"])
    if not (len(g["disp"]) == len(g["dist"]) == len(g["ratio"]) == n):
        return bad("neighbour search returned lists of different lengths", lengths=[n, len(g["disp"]), len(g["dist"]), len(g["ratio"])])
    seen = set()
    for (i, j), d, s, r in zip(g["pairs"], g["disp"], g["dist"], g["ratio"]):
        i, j = int(i), int(j)
        k = (min(i, j), max(i, j))
        if i > j:
            return bad("pair returned with the higher index first", pair=[i, j])
        if k in seen:
            return bad("pair returned twice", pair=k)
        seen.add(k)
        if k not in exp:
            return bad("pair outside the cutoff returned", pair=k)
        ed, es, er = exp[k]
        if not np.allclose(d, ed, rtol=1e-9, atol=1e-9) or not abs(s - es) <= 1e-9 * max(1, es) or not abs(r - er) <= 1e-9 * er:
            return bad("wrong displacement, distance or size ratio for a pair", pair=[i, j], expected=[list(ed), es, er], got=[list(d), s, r])
    miss = set(exp) - seen
    if miss:
        return bad("pair within the cutoff missed", pairs=sorted(miss)[:5])
    return True


def concrete(ck):
    rng = np.random.default_rng(ck.seed + 5)
    N = 24 if ck.quick else 200
    for k in range(N):
        n = int(rng.integers(1, 14))
        sizes = [np.ones(n), rng.choice([1., .1], n), rng.uniform(.2, 3., n)][k % 3]
        cut = [2, 1.3, 2.2][k % 3]
        pos = rng.uniform(-6, 6, (n, 3))
        inp = dict(pos=pos, sizes=sizes, cutoff=cut)
        if not compare(ck, inp, "open domain", "open"):
            return
        L = rng.uniform(7, 16, 3)
        Ot, Et = np.zeros(3), np.zeros((3, 3))
        if k % 2:
            g = rng.uniform(-2.5, 2.5)
            if k % 4 == 1:
                Ot, Et = np.array([0, g / 2, 0]), np.zeros((3, 3))
                Et[0, 2] = Et[2, 0] = g / 2
            else:
                Ot, Et = np.array([0, 0, -g / 2]), np.zeros((3, 3))
                Et[0, 1] = Et[1, 0] = g / 2
        bl = rng.uniform(-3, 3, 3)
        p2 = rng.uniform(0, 1, (n, 3)) @ sheared_basis(L, Ot, Et) + (bl if k % 3 else 0)
        inp = dict(pos=p2, sizes=sizes, cutoff=cut, box_bottom_left=bl, box_top_right=bl + L, Ot_infinity=Ot, Et_infinity=Et)
        if not compare(ck, inp, "periodic box" + (", sheared" if k % 2 else ""), "periodic%d" % (k % 2)):
            return


def symbolic(ck, n):
    """n beads, any positions and radii, open domain: every pattern of near pairs."""
    m = common.world().load(MODULE)
    a = [ring.free("a%d" % i, pos=True) for i in range(n)]
    p = [[ring.free("p%d%d" % (i, k)) for k in range(3)] for i in range(n)]
    cf = ring.free("cutoff", pos=True)
    scope = "bounded: %d beads" % n
    ck.bounds.append(scope)
    dist = {(i, j): ring.sqrt(sum(((p[j][k] - p[i][k]) ** 2 for k in range(3)), SR.const(0))) for i, j in itertools.combinations(range(n), 2)}

    def harness():
        near = {}
        for (i, j), s in dist.items():
            near[i, j] = bool(s / ((a[i] + a[j]) / 2) < 2 * cf)
        return m.close_particles(oarr(p), oarr(a), cf), near
    feas = 0
    for ctx, (kind, res) in sym.explore(harness, limit=400, deadline=ck.deadline - 250):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        (pr, di, ds, ra), near = res
        feas += 1
        got = [tuple(int(x) for x in r) for r in pr]
        want = sorted([(i, i) for i in range(n)] + [k for k, v in near.items() if v])
        ok = sorted(got) == want
        ck.record("n=%d pair set" % n, "proved" if ok else "refuted", "path", 0, scope)
        if not ok:
            continue
        for t, (i, j) in enumerate(got):
            mean = (a[i] + a[j]) / 2
            for k in range(3):
                ck.zero("n=%d displacement[%d,%d,%d]" % (n, i, j, k), SR.lift(di[t, k]) * mean - (p[j][k] - p[i][k]), ctx, None, scope)
            ck.zero("n=%d distance[%d,%d]" % (n, i, j), SR.lift(ds[t]) * mean - (dist[i, j] if i != j else 0), ctx, None, scope)
            ck.zero("n=%d ratio[%d,%d]" % (n, i, j), SR.lift(ra[t]) * a[i] - a[j], ctx, None, scope)
    if feas < 2:
        raise Unsupported("vacuous")


def periodic_symbolic(ck):
    """Two beads in an unsheared periodic box: any box, any positions."""
    m = common.world().load(MODULE)
    scope = "bounded: 2 beads, unsheared box"
    ck.bounds.append(scope)
    a = [ring.free("a%d" % i, pos=True) for i in range(2)]
    p = [[ring.free("p%d%d" % (i, k)) for k in range(3)] for i in range(2)]
    L = [ring.free("L%d" % k, pos=True) for k in range(3)]
    cf = ring.free("cutoff", pos=True)
    r = [p[1][k] - p[0][k] for k in range(3)]
    img = [r[k] - L[k] * sym.floor(r[k] / L[k] + SR.const(1) / 2) for k in range(3)]
    s = ring.sqrt(sum((x * x for x in img), SR.const(0)))
    mean = (a[0] + a[1]) / 2

    def harness():
        near = bool(s / mean <= 2 * cf)
        z = zarr(3)
        return m.close_particles(oarr(p), oarr(a), cf, z, oarr(L), z, zarr(3, 3)), near
    feas = 0
    for ctx, (kind, res) in sym.explore(harness, limit=6000, deadline=ck.deadline - 250):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        (pr, di, ds, ra), near = res
        got = [tuple(int(x) for x in q) for q in pr]
        want = [(0, 0), (0, 1), (1, 1)] if near else [(0, 0), (1, 1)]
        if sorted(got) != want:
            # only meaningful if the path can happen
            st, env = sym.sample_path(ctx, [gid(x) for x in a + L + [cf] + p[0] + p[1]], ck.rng)
            if st == "unsat":
                ck.dead += 1
                continue
            ck.record("periodic pair set", "undecided", "path", 0, scope, "path facts: %s" % (ctx.trace[-3:],))
            if st == "sat":
                inp = dict(pos=np.array([[common.fval(x, env) for x in q] for q in p]), sizes=np.array([common.fval(x, env) for x in a]),
                           cutoff=common.fval(cf, env), box_bottom_left=np.zeros(3), box_top_right=np.array([common.fval(x, env) for x in L]),
                           Ot_infinity=np.zeros(3), Et_infinity=np.zeros((3, 3)))
                compare(ck, inp, "path of the symbolic run", "counterexample")
            continue
        feas += 1
        ck.record("periodic pair set", "proved", "path", 0, scope)
        if near:
            t = got.index((0, 1))
            for k in range(3):
                ck.zero("periodic displacement[%d]" % k, SR.lift(di[t, k]) * mean - img[k], ctx, None, scope)
            ck.zero("periodic distance", SR.lift(ds[t]) * mean - s, ctx, None, scope)
            ck.zero("periodic ratio", SR.lift(ra[t]) * a[0] - a[1], ctx, None, scope)
    if feas < 2:
        raise Unsupported("vacuous")


def lists(res):
    """What the four results hold for the observed pair: None, or (pair, displacement, distance, ratio)."""
    if len(res) != 4 or not all(isinstance(x, pairsum.PSeq) for x in res):
        raise Unsupported("results are not lists over the pairs")
    if len({x.key for x in res}) != 1:
        raise Unsupported("results are not aligned")
    return [x.val for x in res] if res[0].present else None


def unbounded(ck):
    """Any number of beads in an open domain: an arbitrary pair, in both orders, and an arbitrary bead with itself."""
    m = common.world().load(MODULE)
    cf = ring.free("cutoff", pos=True)

    def harness():
        n, p, q = SI.var("n"), SI.var("p"), SI.var("q")
        sym.iassume(z3.And(p.z() >= 0, p.z() <= q.z(), q.z() < n.z()))
        x, a = rowmap.array("x", (n, 3)), rowmap.array("a", (n,), True)
        P = lambda i: ([x.get((i, k)) for k in range(3)], a.get((i,)))
        try:
            if sym.CTX.decide("two beads"):
                sym.iassume(p.z() < q.z())
                orders = ((p, q), (q, p))
            else:
                q = p
                orders = ((p, p),)
            (x1, a1), (x2, a2) = P(p), P(q)
            r = [x2[k] - x1[k] for k in range(3)]
            s = ring.sqrt(sum((v * v for v in r), SR.const(0))) / ((a1 + a2) / 2)
            near = bool(s < 2 * cf)
            found = []
            for o in orders:
                pairsum.OBS[0] = o
                h = lists(m.close_particles(x, a, cf))
                if h is not None:
                    found.append(h)
        finally:
            pairsum.OBS[0] = None
        return (p, q), near, found, r, s, a1, a2, (x1, x2)

    def conc(env, name):
        V = lambda u: [common.fval(v, env) for v in u]
        sz = np.array(V([a1, a2]))
        inp = dict(pos=np.array([V(x1), V(x2)]), sizes=sz, cutoff=common.fval(cf, env))
        if compare(ck, inp, "obligation %s" % name, "counterexample"):
            far = np.array([[1e3, 0, 0], [-1e3, 0, 0]])
            compare(ck, dict(inp, pos=np.concatenate([far, inp["pos"]]), sizes=np.concatenate([sz[::-1], sz])), "obligation %s" % name, "counterexample")
    seen = set()
    for ctx, (kind, res) in sym.explore(harness, limit=200, deadline=ck.deadline - 250):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        (p, q), near, found, r, s, a1, a2, (x1, x2) = res
        tag = "any number of beads: %s, %s" % ("a bead with itself" if q is p else "a pair", "within" if near else "outside")
        seen.add((q is p, near))
        # the number of times it is listed; a difference of whole numbers
        ck.zero(tag + ": listed once" if near else tag + ": not listed", SR.const(len(found) - int(near)), ctx, conc)
        if len(found) != int(near) or not near:
            continue
        (i, j), di, ds, ra = found[0]
        ck.zero(tag + ": first index", SR.lift(SI.lift(i) - p), ctx, conc)
        ck.zero(tag + ": second index", SR.lift(SI.lift(j) - q), ctx, conc)
        mean = (a1 + a2) / 2
        for k in range(3):
            ck.zero("%s: displacement[%d]" % (tag, k), SR.lift(di[k]) * mean - r[k], ctx, conc)
        ck.zero(tag + ": distance", SR.lift(ds) - s, ctx, conc)
        ck.zero(tag + ": ratio", SR.lift(ra) * a1 - a2, ctx, conc)
    if not {(False, True), (False, False), (True, True)} <= seen:
        raise Unsupported("vacuous")


def unbounded_periodic(ck, sheared):
    """Any number of beads in a periodic box: an arbitrary pair, in both orders, and an arbitrary bead with itself."""
    w = common.world()
    np_ = w.np
    m = w.load(MODULE)
    cf = ring.free("cutoff", pos=True)
    L = [ring.free("L%d" % k, pos=True) for k in range(3)]
    g = ring.free("shear") if sheared else SR.const(0)
    Ot, Et = oarr([0, g / 2, 0]), oarr([[0, 0, g / 2], [0, 0, 0], [g / 2, 0, 0]])
    corner = oarr([ring.free("corner%d" % k) for k in range(3)])
    n = SI.var("n")
    a = rowmap.array("a", (n,), True)
    rule = pairlist.Rule(n)
    seen_sizes = []
    max0, array0, concat0 = np_.max, np_.array, np_.concatenate

    def largest(x, axis=None, **k):
        if isinstance(x, lazyarr.LArr):
            if axis is None and x.ndim == 1 and set(k) <= {"initial"}:
                # contract of max: not below any entry
                top = ring.free("largest", nonneg=True)
                for i in seen_sizes:
                    sym.assume(top >= x.get((i,)))
                return top
            if axis in (1, -1) and x.ndim == 2 and isinstance(x.shape[1], int) and not k:
                return lazyarr.LArr(x.shape[:1], lambda o: facade._maxf([x.get((o[0], c)) for c in range(x.shape[1])]))
        return max0(x, axis, **k) if axis is not None else max0(x, **k)
    names = {}

    def named(e):
        """A displacement to the nearest image, by a name of its own (equal values have equal names)."""
        e = SR.lift(e)
        if not any(GENS[h].kind == "fn" and GENS[h].fn == "floor" and any(GENS[u].name.startswith("x[") for u in GENS[h].args[0].gens()) for h in e.gens()):
            return e
        return names.setdefault(frozenset(e.t.items()), ring.free("image%d" % len(names)))
    dot0 = np_.dot

    def dot(u, v):
        r = dot0(u, v)
        if isinstance(r, lazyarr.LArr):
            return lazyarr.LArr(r.shape, lambda o: named(r.get(o)))
        return oarr([named(e) for e in r]) if isinstance(r, np.ndarray) and r.ndim == 1 else r
    np_.dot = dot
    np_.max = np_.amax = largest
    np_.array = lambda x, *b, **k: rule.array(x, array0, *b, **k)
    np_.concatenate = lambda s, axis=0: pairlist.concat(s, concat0, axis)

    def harness():
        p, q = SI.var("p"), SI.var("q")
        sym.iassume(z3.And(p.z() >= 0, p.z() <= q.z(), q.z() < n.z()))
        x = rowmap.array("x", (n, 3))
        P = lambda i: ([x.get((i, k)) for k in range(3)], a.get((i,)))
        facade.LOOP_HOOK[0] = rule
        try:
            if sym.CTX.decide("two beads"):
                sym.iassume(p.z() < q.z())
                orders = ((p, q), (q, p))
            else:
                q = p
                orders = ((p, p),)
            seen_sizes[:] = [p, q] if q is not p else [p]
            (x1, a1), (x2, a2) = P(p), P(q)
            B = np_.diag(oarr(L))
            if sheared:
                # simple shear moves the top of the box along x, by less than a side
                B[2, 0] = sym.mod(g * L[2], L[0])
            f = np_.dot(oarr([x2[k] - x1[k] for k in range(3)]), np_.linalg.inv(B))
            r = np_.dot(oarr([v - sym.floor(v + SR.const(1) / 2) for v in f]), B)
            s = ring.sqrt(sum((v * v for v in r), SR.const(0))) / ((a1 + a2) / 2)
            near = bool(s <= 2 * cf)
            found = []
            for o in orders:
                pairsum.OBS[0] = o
                facade.HAVOC.clear()
                facade.AFTER.clear()
                rule.reset()
                h = lists(m.close_particles(x, a, cf, corner, corner + oarr(L), Ot, Et))
                if rule.met < 2:
                    raise Unsupported("no loops over the beads met")
                if h is not None:
                    found.append(h)
        finally:
            pairsum.OBS[0] = None
            facade.LOOP_HOOK[0] = None
        return (p, q), near, found, r, s, a1, a2, (x1, x2)
    obs, seen = [], set()
    for ctx, (kind, res) in sym.explore(harness, limit=3000, deadline=ck.deadline - 250):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        (p, q), near, found, r, s, a1, a2, (x1, x2) = res
        tag = "any number of beads in a %s: %s, %s" % ("sheared box" if sheared else "box", "a bead with itself" if q is p else "a pair", "within" if near else "outside")
        if len(found) != int(near):
            st = sym.path_model(ctx)[0]
            if st == "unsat":
                ck.dead += 1
                continue
            raise Unsupported("%s: listed %d times (%s)" % (tag, len(found), st))
        seen.add((q is p, near))
        obs.append((tag + (": listed once" if near else ": not listed"), "path"))
        if not near:
            continue
        (i, j), di, ds, ra = found[0]
        mean = (a1 + a2) / 2
        zero = {"first index": SR.lift(SI.lift(i) - p), "second index": SR.lift(SI.lift(j) - q), "distance": SR.lift(ds) - s, "ratio": SR.lift(ra) * a1 - a2}
        for k in range(3):
            zero["displacement[%d]" % k] = SR.lift(di[k]) * mean - r[k]
        for name, e in zero.items():
            if not (e.subs(ctx.subst) if ctx.subst else e).is_zero():
                raise Unsupported("%s: %s not proved" % (tag, name))
            obs.append(("%s: %s" % (tag, name), "ring"))
    if not {(False, True), (False, False), (True, True)} <= seen:
        raise Unsupported("vacuous")
    for name, how in obs:
        ck.record(name, "proved", how)


def run(ck):
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations; pairs exactly at the cutoff or exactly half a box apart are not compared")
    ck.assume("scipy pdist/squareform give Euclidean distances (facade contract)")
    ck.under_contract("close_particles", "shear_basis_vectors")
    ck.assume("numpy.where lists each selected index pair once, in one order")
    if not ck.guard("any number of beads, open domain", unbounded, ck):
        for n in (2, 3):
            ck.guard("%d beads" % n, symbolic, ck, n)
    if not all([ck.guard("any number of beads, %s" % ("sheared box" if sh else "box"), unbounded_periodic, ck, sh) for sh in (False, True)]):
        ck.guard("periodic", periodic_symbolic, ck)
    concrete(ck)
