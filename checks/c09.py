"""C09: changing which quantities are prescribed preserves the force-velocity relation."""
import numpy as np
from vc import ring, sym, common, facade, blocks, pairloop, real
from vc.ring import SR, Unsupported
from vc.sym import SI

LEVEL = "proof"

CODE = '''
def f(a):
    import functions.simulation_tools as t
    R = a["R"].copy()
    pd, fs, fd = a["pd"], a["fs"], a["fd"]
    keep = R.copy()
    out = {}
    if a["form"] == "duf":
        out["m"] = np.asarray(t.fts_to_duf_matrix(fd, pd, R))
        out["kept"] = bool(np.array_equal(R, keep))
        return out
    m = np.asarray(t.fts_to_fte_matrix(pd, R))
    kept = bool(np.array_equal(R, keep))
    if a["form"] in ("ufte", "ufteu"):
        k2 = m.copy()
        m2 = np.asarray(t.fte_to_ufte_matrix(fs, pd, m))
        kept = kept and bool(np.array_equal(m, k2))
        m = m2
    if a["form"] == "ufteu":
        k2 = m.copy()
        m2 = np.asarray(t.ufte_to_ufteu_matrix(fd, fs, pd, m))
        kept = kept and bool(np.array_equal(m, k2))
        m = m2
    return {"m": m, "kept": kept}
'''


def exchanged(form, ns, nd, fs, fd):
    """Indices whose force/velocity roles are swapped."""
    S = set()
    if form in ("fte", "ufte", "ufteu"):
        S |= set(range(6 * ns, 11 * ns))
    if form in ("ufte", "ufteu"):
        S |= set(range(3 * fs))
    if form in ("ufteu", "duf"):
        S |= set(range(11 * ns, 11 * ns + 3 * fd)) | set(range(11 * ns + 3 * nd, 11 * ns + 3 * nd + 3 * fd))
    return sorted(S)


def check_real(ck, rng, form, ns, nd, fs, fd, tag):
    n = 11 * ns + 6 * nd
    A = rng.normal(size=(n, n))
    R = A @ A.T / n + np.eye(n) * .3
    x = rng.normal(size=n)
    y = R @ x
    S = exchanged(form, ns, nd, fs, fd)
    x2, y2 = x.copy(), y.copy()
    x2[S], y2[S] = y[S], x[S]
    inp = dict(R=R, pd=common.posd(ns, nd), fs=fs, fd=fd, form=form)
    rep = dict(function="matrix form conversions", input=inp, x=x)
    try:
        g = ck.real.call(CODE, inp)
    except real.RealError as e:
        ck.violation("conversion to %s raised %s" % (form, e), dict(rep, error=str(e)))
        return False
    ck.evaluated((tag, form, ns, nd, fs, fd), dict(form=form, spheres=ns, dumbbells=nd, fixed_spheres=fs, fixed_dumbbells=fd))
    m = np.asarray(g["m"], float)
    if m.shape != (n, n) or not np.allclose(m @ x2, y2, rtol=1e-7, atol=1e-7 * max(1, np.abs(y2).max())):
        ck.violation("converted %s matrix does not relate the exchanged quantities" % form, dict(rep, expected=y2, got=m @ x2 if m.shape == (n, n) else m.shape))
        return False
    if not g["kept"]:
        ck.violation("conversion to %s modified the matrix it was given" % form, rep)
        return False
    return True


# name, builder of the call, exchanged part names before the step, after the step
PARTS = ["x", "r", "T", "E", "4x", "4r", "5x", "5r"]


def sizes(ns, nd, fs, fd):
    return {"x": fs * 3, "r": ns * 3 - fs * 3, "T": ns * 3, "E": ns * 5, "4x": fd * 3, "4r": nd * 3 - fd * 3, "5x": fd * 3, "5r": nd * 3 - fd * 3}


def step(ck, name, dumbbells, spheres=True):
    """One conversion, any numbers of particles and of fixed ones; the matrix is any
    matrix with the sign symmetry the previous form has (that is obligated of the
    previous step)."""
    m = common.world().load("functions.simulation_tools")
    flip0 = {"fte": [], "ufte": ["E"], "ufteu": ["E", "x"], "duf": []}[name]
    flip1 = {"fte": ["E"], "ufte": ["E", "x"], "ufteu": ["E", "x", "4x", "5x"], "duf": ["4x", "5x"]}[name]
    tag = "%s%s" % (name, "" if dumbbells else " without dumbbells")

    def harness():
        B = pairloop.Bodies()
        ns, nd = B.ns, B.nd
        fs, fd = SI.var("fs"), SI.var("fd")
        if not spheres:
            ns = 0
            B.ss, B.sp, B.rot = facade.zeros(0), facade.zeros((0, 3)), facade.zeros((0, 2, 3))
        else:
            sym.iassume(ns.z() >= 1)
            sym.iassume(fs.z() >= 0)
            sym.iassume(fs.z() <= ns.z())
        if not dumbbells:
            nd = 0
            B.ds, B.dp, B.dx = facade.zeros(0), facade.zeros((0, 3)), facade.zeros((0, 3))
        else:
            sym.iassume(nd.z() >= 1)
            sym.iassume(fd.z() >= 0)
            sym.iassume(fd.z() <= nd.z())
        parts = [p for p in PARTS if (spheres or p[0] in "45") and (dumbbells or p[0] not in "45")]
        if name == "fte":
            parts = [p for p in parts if p not in ("x", "4x", "5x")]
            fs = fd = 0
        if name == "ufte":
            parts = [p for p in parts if p not in ("4x", "5x")]
            fd = 0
        sz = sizes(ns, nd, fs, fd)
        cuts = [0]
        for p in parts:
            cuts.append(SI.lift(cuts[-1]) + sz[p])
        alg = blocks.Algebra()
        sg = [-1 if p in flip0 else 1 for p in parts]
        M = blocks.matrix(alg, "m", cuts, sg)
        facade.ZEROS_HOOK[0] = lambda shape: blocks.BArr(alg, cuts, cuts, [[{} for _ in parts] for _ in parts], owned=True) \
            if isinstance(shape, (tuple, list)) and len(shape) == 2 and all(blocks.same_int(s, cuts[-1]) for s in shape) else None
        facade._Linalg.INV[0] = lambda q: q.inverse()
        try:
            pd = B.posdata()
            if name == "fte":
                R = m.fts_to_fte_matrix(pd, M)
            elif name == "ufte":
                R = m.fte_to_ufte_matrix(fs, pd, M)
            elif name == "ufteu":
                R = m.ufte_to_ufteu_matrix(fd, fs, pd, M)
            else:
                R = m.fts_to_duf_matrix(fd, pd, M)
        finally:
            facade.ZEROS_HOOK[0] = facade._Linalg.INV[0] = None
        return alg, parts, cuts, M, R
    feas = 0
    for ctx, (kind, res) in sym.explore(harness, limit=20):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        feas += 1
        alg, parts, cuts, M, R = res
        if not isinstance(R, blocks.BArr):
            raise Unsupported("result %r" % (type(R),))
        x = blocks.vector(alg, "v", cuts)
        orig = blocks.matrix(alg, "m", cuts, [-1 if p in flip0 else 1 for p in parts])
        y = orig.dot(x)
        x2, y2 = x.copy(), y.copy()
        for i, p in enumerate(parts):
            if (p in flip1) != (p in flip0):
                x2.b[i][0], y2.b[i][0] = y.b[i][0], x.b[i][0]
        diff = R.dot(x2) - y2
        for i, p in enumerate(parts):
            d = alg.norm(diff.b[i][0])
            ck.record("%s: relation row[%s]" % (tag, p), "proved" if not d else "undecided", "block algebra", 0, "unbounded", "" if not d else "left over %s" % (d,))
        # the sign symmetry the next conversion requires
        sg = [-1 if p in flip1 else 1 for p in parts]
        for i, p in enumerate(parts):
            for j, q in enumerate(parts):
                try:
                    d = alg.norm(alg.add(alg.transpose(R.b[i][j]), R.b[j][i], -sg[i] * sg[j]))
                except Unsupported as e:
                    d = {("?",): str(e)}
                ck.record("%s: sign symmetry[%s,%s]" % (tag, p, q), "proved" if not d else "undecided", "block algebra", 0, "unbounded", "" if not d else "left over %s" % (d,))
        ck.record("%s: argument not modified" % tag, "proved" if not M.track else "undecided", "frame", 0, "unbounded")
    if not feas:
        raise Unsupported("vacuous")


def run(ck):
    ck.assume("numpy.linalg.inv returns the two-sided inverse of the block it is given (which must be invertible)")
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("the matrix given to the first conversion is symmetric, as the grand resistance matrix is")
    ck.under_contract("fts_to_fte_matrix", "fte_to_ufte_matrix", "ufte_to_ufteu_matrix", "fts_to_duf_matrix", "vecmat_mat_vecmat", "vec_mat_cross", "posdata_data")
    for a in [("fte", True), ("fte", False), ("ufte", True), ("ufte", False), ("ufteu", True), ("duf", True, False)]:
        ck.guard(" ".join(map(str, a)), step, ck, *a)
    rng = np.random.default_rng(ck.seed + 9)
    forms = ["fte", "ufte", "ufteu", "duf"]
    top = 3 if ck.quick else 5
    for form in forms:
        for ns in ([0] if form == "duf" else range(1, top)):
            for nd in range(1 if form in ("ufteu", "duf") else 0, top):
                for fs in range(ns + 1) if form in ("ufte", "ufteu") else [0]:
                    for fd in range(nd + 1) if form in ("ufteu", "duf") else [0]:
                        if not check_real(ck, rng, form, ns, nd, fs, fd, "enumerated"):
                            return
    for k in range(8 if ck.quick else 80):
        form = forms[k % 4]
        ns, nd = 0 if form == "duf" else int(rng.integers(1, 7)), int(rng.integers(1, 7))
        fs, fd = int(rng.integers(0, ns + 1)), int(rng.integers(0, nd + 1))
        if not check_real(ck, rng, form, ns, nd, fs, fd, "random"):
            break
