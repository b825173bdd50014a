"""C11: grand resistance is the inverse far-field mobility plus lubrication."""
import inspect
import numpy as np
import z3
from vc import ring, sym, common, facade, blocks, real, spec_far, spec_lub, pairloop, lazyarr
from vc.ring import SR, Unsupported
from vc.sym import SI
from checks import c03

MODULE = "functions.generate_grand_resistance_matrix"

CODE = '''
def f(a):
    import functions.generate_grand_resistance_matrix as g
    import functions.generate_Minfinity as gm
    import functions.generate_Minfinity_periodic as gp
    import functions.generate_R2Bexact as gr
    pd, box = a["pd"], a.get("box")
    keep_pd = [x.copy() for x in pd]
    out = {"R": [], "inv": [], "kept": True}
    last = a["last"]
    returned = []
    for (regen, drag, only) in a["calls"]:
        given = last
        keep = None if given is None else np.array(given, copy=True)
        kw = dict(regenerate_Minfinity=bool(regen), cutoff_factor=a["cutoff"], use_drag_Minfinity=bool(drag), use_Minfinity_only=bool(only), mu=a["mu"])
        if box is None:
            R, h, inv, times = g.generate_grand_resistance_matrix(pd, given, **kw)
        else:
            R, h, inv, times = g.generate_grand_resistance_matrix_periodic(pd, given, box[0], box[1], Ot_infinity=a["Ot"], Et_infinity=a["Et"], **kw)
        out["R"].append(np.array(R, float, copy=True))
        out["inv"].append(np.array(inv, float, copy=True))
        for old, was in returned:
            if not np.array_equal(old, was):
                out["kept"] = False
        returned.append((inv, np.array(inv, copy=True)))
        if keep is not None and not np.array_equal(np.asarray(given), keep):
            out["kept"] = False
        last = inv
    out["kept"] = out["kept"] and all(bool(np.array_equal(x, y)) for x, y in zip(keep_pd, pd))
    if box is None:
        out["L"] = np.asarray(gr.generate_R2Bexact(pd, cutoff_factor=a["cutoff"], mu=a["mu"])[0], float)
    else:
        out["L"] = np.asarray(gr.generate_R2Bexact(pd, cutoff_factor=a["cutoff"], mu=a["mu"], box_bottom_left=box[0], box_top_right=box[1],
                                                   Ot_infinity=a["Ot"], Et_infinity=a["Et"])[0], float)
        out["M"] = np.asarray(gp.generate_Minfinity_periodic(pd, box[0], box[1], mu=a["mu"], Ot_infinity=a["Ot"], Et_infinity=a["Et"])[0], float)
    return out
'''


def drag_np(pd, mu):
    ss, ds = np.asarray(pd[0], float), np.asarray(pd[3], float)
    d = np.concatenate([np.repeat(6 * np.pi * ss, 3), np.repeat(8 * np.pi * ss ** 3, 3), np.repeat(20 / 3. * np.pi * ss ** 3, 5),
                        np.repeat(12 * np.pi * ds, 3), np.repeat(12 * np.pi * ds, 3)])
    return mu * np.diag(d)


def check_real(ck, F, tab, pd, mu, cutoff, calls, tag, box=None, Ot=None, Et=None):
    ns, nd = len(pd[0]), len(pd[3])
    n = 11 * ns + 6 * nd
    rng = np.random.default_rng(5)
    q = rng.normal(size=(n, n))
    prev = q @ q.T + np.eye(n)
    inp = dict(pd=pd, mu=float(mu), cutoff=cutoff, calls=[list(map(int, c)) for c in calls], last=prev)
    if box is not None:
        inp.update(box=[np.asarray(b, float) for b in box], Ot=np.asarray(Ot, float), Et=np.asarray(Et, float))
    rep = dict(function="generate_grand_resistance_matrix" + ("_periodic" if box is not None else ""), input=inp)
    try:
        g = ck.real.call(CODE, inp, 300)
    except real.RealError as e:
        ck.violation("assembling the grand resistance raised %s" % str(e)[:200], dict(rep, error=str(e)))
        return False
    ck.evaluated((tag, ns, nd, mu, cutoff, repr(calls), repr(np.round(pd[1], 6).tolist())), dict(spheres=ns, dumbbells=nd, calls=repr(calls), class_=tag))
    if box is None:
        pos = np.concatenate([pd[1], pd[4] - .5 * pd[5], pd[4] + .5 * pd[5]])
        a = np.concatenate([pd[0], pd[3], pd[3]])
        M = spec_far.assemble_np(ns, nd, lambda u, v: F.num_pair(pos[u], pos[v], a[u], a[v], mu, u == v))
        L = c03.oracle(tab, pd, cutoff, mu)[0]
    else:
        M, L = g["M"], g["L"]
    inv = prev
    for k, (regen, drag, only) in enumerate(calls):
        if drag:
            inv = drag_np(pd, mu)
        elif regen:
            inv = np.linalg.inv(M)
        exp = inv + (0 if only else L)
        for nm, got, want in (("returned inverse", g["inv"][k], inv), ("resistance", g["R"][k], exp)):
            if np.shape(got) != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-8 * np.abs(want).max()):
                ck.violation("call %d: the %s is not the expected matrix" % (k, nm), dict(rep, call=k, expected=want, got=got))
                return False
    if not g["kept"]:
        ck.violation("a supplied matrix or the configuration was modified", rep)
        return False
    return True


def norm(x):
    """Hashable form of an argument."""
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        else:
            return tuple(norm(v) for v in x)
    if isinstance(x, (SR, int, float, np.integer, np.floating)) and not isinstance(x, bool):
        x = x.item() if isinstance(x, (np.integer, np.floating)) else x
        v = SR.lift(x)
        return ("num", tuple(sorted(v.t.items())))
    return ("obj", id(x))


def deductive(ck, periodic, regen, only):
    """Callees are replaced by arbitrary functions of the arguments their contracts
    depend on, bound through the real signatures."""
    tag = "%s %s %s" % ("periodic" if periodic else "open", "rebuild" if regen else "reuse", "far field only" if only else "with lubrication")
    w = common.world_no_tables()
    alg = blocks.Algebra()
    n = SI.var("n")
    keys = {}
    PD = [common.sposd(2, 1)]

    def opaque(kind, depends, orig):
        sig = inspect.signature(orig)

        def f(*args, **kw):
            ba = sig.bind(*args, **kw)
            ba.apply_defaults()
            val = []
            for d in depends:
                if d not in ba.arguments:
                    raise Unsupported("%s has no argument %s" % (kind, d))
                v = ba.arguments[d]
                val.append(("same",) if d == "posdata" and v is PD[0] else norm(v))
            if "box_bottom_left" in depends:
                k = depends.index("box_bottom_left")
                if val[k] == val[k + 1]:        # equal corners: open domain, the rest is ignored
                    val = val[:k] + ["open"]
            key = (kind,) + tuple(val)
            keys.setdefault(key, len(keys))
            return blocks.BArr(alg, [0, n], [0, n], [[{((kind, keys[key]),): 1}]], owned=True), kind
        return f
    geom = ["box_bottom_left", "box_top_right", "Ot_infinity", "Et_infinity"]
    for mod, fn, dep in (("functions.generate_Minfinity", "generate_Minfinity", ["posdata", "mu"]),
                         ("functions.generate_Minfinity_periodic", "generate_Minfinity_periodic", ["posdata", "mu"] + geom),
                         ("functions.generate_R2Bexact", "generate_R2Bexact", ["posdata", "mu", "cutoff_factor"] + geom)):
        src = w.load(mod)
        setattr(src, fn, opaque(fn, dep, getattr(src, fn)))
        w.opq = getattr(w, "opq", {})
        w.opq[fn] = getattr(src, fn)
    m = w.load(MODULE)

    def harness():
        mu, cut, frame = ring.free("mu", pos=True), ring.free("cut", pos=True), 3
        b0, b1 = common.sarr("b", 3), common.sarr("c", 3)
        Ot, Et = common.sarr("O", 3), common.sarr("E", 3, 3)
        last = blocks.BArr(alg, [0, n], [0, n], [[{(("last",),): 1}]], track=[])
        kw = dict(regenerate_Minfinity=regen, cutoff_factor=cut, use_Minfinity_only=only, mu=mu, frameno=frame)
        facade._Linalg.INV[0] = lambda q: q.inverse()
        try:
            if periodic:
                r = m.generate_grand_resistance_matrix_periodic(PD[0], last, b0, b1, Ot_infinity=Ot, Et_infinity=Et, **kw)
                far = lambda: w.opq["generate_Minfinity_periodic"](PD[0], b0, b1, mu=mu, Ot_infinity=Ot, Et_infinity=Et)[0]
                lub = w.opq["generate_R2Bexact"](PD[0], mu=mu, cutoff_factor=cut, box_bottom_left=b0, box_top_right=b1, Ot_infinity=Ot, Et_infinity=Et)[0]
            else:
                r = m.generate_grand_resistance_matrix(PD[0], last, **kw)
                far = lambda: w.opq["generate_Minfinity"](PD[0], mu=mu)[0]
                lub = w.opq["generate_R2Bexact"](PD[0], mu=mu, cutoff_factor=cut)[0]
            inv = far().inverse() if regen else blocks.BArr(alg, [0, n], [0, n], [[{(("last",),): 1}]])
        finally:
            facade._Linalg.INV[0] = None
        exp = inv if only else inv + lub
        return r, inv, exp, last
    seen = 0
    for ctx, (kd, res) in sym.explore(harness, limit=20):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        seen += 1
        r, inv, exp, last = res
        for nm, g, e in (("resistance", r[0], exp), ("returned inverse", r[2], inv)):
            if not isinstance(g, blocks.BArr):
                raise Unsupported("%s is %r" % (nm, type(g)))
            d = alg.norm(alg.add(g.b[0][0], e.b[0][0], -1))
            ck.record("%s: %s" % (tag, nm), "proved" if not d else "undecided", "block algebra", 0, "unbounded", "" if not d else "left over %s" % (d,))
        ck.record("%s: previous inverse untouched" % tag, "proved" if not last.track else "undecided", "frame", 0, "unbounded")
    if not seen:
        raise Unsupported("vacuous")


def drag(ck, periodic, ns, nd):
    """Drag-only option; radii and viscosity symbolic, listed counts."""
    w = common.world_no_tables()
    m = w.load(MODULE)
    tag = "%s drag only %d spheres %d dumbbells" % ("periodic" if periodic else "open", ns, nd)

    def harness():
        mu = ring.free("mu", pos=True)
        ss, ds = [ring.free("a%d" % i, pos=True) for i in range(ns)], [ring.free("b%d" % i, pos=True) for i in range(nd)]
        pd = (common.oarr(ss) if ns else common.zarr(0), common.zarr(ns, 3), common.zarr(ns, 2, 3), common.oarr(ds) if nd else common.zarr(0), common.zarr(nd, 3), common.zarr(nd, 3))
        kw = dict(use_drag_Minfinity=True, use_Minfinity_only=True, mu=mu)
        if periodic:
            b = common.sarr("b", 6)
            r = m.generate_grand_resistance_matrix_periodic(pd, None, b[:3], b[3:], **kw)
        else:
            r = m.generate_grand_resistance_matrix(pd, None, **kw)
        p = ring.PI * mu
        d = [6 * p * a for a in ss for _ in range(3)] + [8 * p * a ** 3 for a in ss for _ in range(3)] + \
            [p * a ** 3 * 20 / 3 for a in ss for _ in range(5)] + [12 * p * a for a in ds for _ in range(3)] * 2
        return np.asarray(r[0], dtype=object), d
    for ctx, (kd, res) in sym.explore(harness, limit=20):
        ck.paths += 1
        if kd != "ok":
            raise Unsupported("%s %r" % (kd, res))
        got, d = res
        if got.shape != (len(d), len(d)):
            raise Unsupported("shape %s" % (got.shape,))
        for i in range(len(d)):
            for j in range(len(d)):
                ck.zero("%s[%d,%d]" % (tag, i, j), SR.lift(got[i, j]) - (d[i] if i == j else 0), ctx, None, scope="bounded")


def drag_any(ck, periodic):
    """Drag-only option for any numbers of spheres and dumbbells, an arbitrary entry."""
    w = common.world_no_tables()
    m = w.load(MODULE)
    tag = "%s drag only, any number" % ("periodic" if periodic else "open")
    kinds = "UWE45"

    def harness():
        B = pairloop.Bodies()
        sym.iassume((B.ns + B.nd).z() >= 1)
        mu = ring.free("mu", pos=True)
        kw = dict(use_drag_Minfinity=True, use_Minfinity_only=True, mu=mu)
        if periodic:
            b = common.sarr("b", 6)
            r = m.generate_grand_resistance_matrix_periodic(B.posdata(), None, b[:3], b[3:], **kw)
        else:
            r = m.generate_grand_resistance_matrix(B.posdata(), None, **kw)
        n = B.ns * 11 + B.nd * 6
        ks = []
        for lab in ("row", "column"):
            ks.append(next((k for k in kinds[:-1] if sym.CTX.decide("%s kind %s" % (lab, k))), "5"))
        idx = [sym.SI.var("i"), sym.SI.var("j")]
        for k, x in zip(ks, idx):
            sym.iassume(z3.And(x.z() >= 0, x.z() < (B.ns if k in "UWE" else B.nd).z()))
        if not sym.ifeasible():
            raise sym.Infeasible()
        p = ring.PI * mu
        out = []
        for g in (r[0], r[2]):
            if not (getattr(g, "_lazy", False) and len(g.shape) == 2 and all(lazyarr._same(d, n) for d in g.shape)):
                raise Unsupported("result shape")
        same = ks[0] == ks[1] and lazyarr.eq(*idx)
        for c in range(pairloop.DIM[ks[0]]):
            for d in range(pairloop.DIM[ks[1]]):
                e = SR.const(0)
                if same and c == d:
                    a = (B.ss if ks[0] in "UWE" else B.ds).get((idx[0],))
                    e = {"U": 6 * p * a, "W": 8 * p * a ** 3, "E": p * a ** 3 * 20 / 3, "4": 12 * p * a, "5": 12 * p * a}[ks[0]]
                o = (lazyarr.canon(B.start(ks[0], idx[0]) + c), lazyarr.canon(B.start(ks[1], idx[1]) + d))
                for nm, g in (("resistance", r[0]), ("returned inverse", r[2])):
                    out.append(("%s %s%s[%d,%d]" % (nm, ks[0], ks[1], c, d), SR.lift(g.get(o)) - e))
        return out
    n = 0
    for ctx, (kd, res) in sym.explore(harness, limit=400, deadline=ck.t0 + 300):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("%r" % (res,))
        n += 1
        for nm, d in res:
            ck.zero("%s: %s" % (tag, nm), d, ctx)
    if not n:
        raise Unsupported("vacuous")


def cluster(rng, ns, nd, sizes=(1.,), spread=2.3):
    """Particles on a jittered grid, none overlapping much."""
    n = ns + 2 * nd
    k = int(np.ceil(n ** (1 / 3.)))
    grid = np.array([[i, j, l] for i in range(k) for j in range(k) for l in range(k)], float)
    p = grid[rng.permutation(len(grid))[:n]] * spread + rng.uniform(-.1, .1, (n, 3))
    ss, ds = rng.choice(sizes, ns), rng.choice(sizes, nd)
    b1, b2 = p[ns:ns + nd], p[ns + nd:]
    return common.posdata_np(ss, p[:ns], ds, (b1 + b2) / 2, b2 - b1)


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("numpy.linalg.inv returns the two-sided inverse")
    ck.assume("generate_Minfinity(_periodic) and generate_R2Bexact are functions of configuration, viscosity, cutoff, box and accumulated shear (C01-C05, C16, C17)")
    ck.under_contract("generate_grand_resistance_matrix", "generate_grand_resistance_matrix_periodic")
    for periodic in (False, True):
        for regen in (False, True):
            for only in (False, True):
                ck.guard("%s" % ((periodic, regen, only),), deductive, ck, periodic, regen, only)
        if ck.guard("drag %s" % periodic, drag_any, ck, periodic):
            continue
        if "drag-only option: listed counts" not in ck.bounds:
            ck.bounds.append("drag-only option: listed counts")
        for ns, nd in ((1, 0), (0, 1), (2, 1)) + (() if ck.quick else ((3, 2),)):
            ck.guard("drag %s" % ((periodic, ns, nd),), drag, ck, periodic, ns, nd)
    rng = np.random.default_rng(ck.seed + 11)
    F = spec_far.FarSpec()
    tab = c03.real_tables(ck)
    full = [(1, 0, 0), (0, 0, 0), (0, 0, 1), (1, 0, 1), (0, 0, 0), (1, 1, 0), (0, 0, 0), (0, 1, 1)]
    for k in range(6 if ck.quick else 30):
        ns, nd = [(2, 0), (0, 2), (2, 1), (1, 2), (3, 0), (3, 2)][k % 6]
        calls = full if k < 3 else [tuple(map(int, rng.integers(0, 2, 3))) for _ in range(4)]
        pd = cluster(rng, ns, nd, (1., 10.) if k % 3 == 2 else (1.,), 2.3 if k % 3 != 2 else 14.)
        if not check_real(ck, F, tab, pd, float(rng.uniform(.3, 3)), float(rng.choice([2., 1.2])), calls, "open"):
            return
    for k in range(2 if ck.quick else 8):
        # a row along x at the bottom of the box and one particle that is near it only through the top face
        row = np.array([[2.2 * i, 0, 0] for i in range(3)]) + rng.uniform(-.05, .05, (3, 3))
        top = np.array([[rng.uniform(0, 6), 0, 4.75]])
        if k % 2:
            pd = common.posdata_np([1.] * 2, row[1:], [1.], (row[:1] + top) / 2, top - row[:1])
        else:
            pd = common.posdata_np([1.] * 4, np.concatenate([row, top]), [], [], [])
        Ot = np.array([0, rng.uniform(.2, .5) * rng.choice([-1, 1]), 0])
        e = rng.uniform(.2, .5)
        Et = np.array([[0, 0, e], [0, 0, 0], [e, 0, 0]])
        if not check_real(ck, F, tab, pd, float(rng.uniform(.3, 3)), 2., [(1, 0, 0), (0, 0, 0), (0, 0, 1), (0, 1, 1), (1, 0, 1)], "periodic",
                          box=(np.array([-1.1, -3, -1.]), np.array([5.5, 3, 6.])), Ot=Ot, Et=Et):
            return
