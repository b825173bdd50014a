"""C10: solved motions satisfy the resistance relation and every prescribed value."""
import inspect
import numpy as np
from vc import ring, sym, common, facade, lazyarr, real, rowmap, spec_far
from vc.ring import SR, Unsupported
from vc.sym import SI
from checks import c07, c09, c11

LEVEL = "proof"
MODULE = "functions.timestepping"

CODE = '''
def f(a):
    import copy
    import functions.timestepping as ts
    import setups.inputs as si
    import functions.generate_grand_resistance_matrix as g
    calls = []
    P = "pippa"

    def given(n, posdata, frameno, timestep, last_velocities, input_form="undefined", skip_computation=False, grand_resistance_matrix_fte=0):
        calls.append((n, frameno, timestep, input_form, posdata is pd, last_velocities is lv))
        ns, nd = len(pd[0]), len(pd[3])
        v = a["vals"]
        fs, fd, form = a["fs"], a["fd"], a["form"]
        L = lambda x: [list(map(float, r)) for r in x]
        L2 = lambda x: [[list(map(float, q)) for q in r] for r in x]
        e3 = lambda k: [[P] * 3 for _ in range(k)]
        e33 = lambda k: [[[P] * 3 for _ in range(3)] for _ in range(k)]
        F, T, S, Fb, DFb = e3(ns), e3(ns), e33(ns), e3(nd), e3(nd)
        U, O, E, Ub, HDU = e3(ns), e3(ns), e33(ns), e3(nd), e3(nd)
        T = L(v["T"])
        F[fs:] = L(v["F"])[fs:]
        U[:fs] = L(v["U"])[:fs]
        Fb[fd:], DFb[fd:] = L(v["Fb"])[fd:], L(v["DFb"])[fd:]
        Ub[:fd], HDU[:fd] = L(v["Ub"])[:fd], L(v["HDU"])[:fd]
        if form == "fts":
            S = L2(v["S"])
        else:
            E = L2(v["E"])
        return (F, T, S, [[P] * 5 for _ in range(ns)], Fb, DFb, U, O, E, [[P] * 5 for _ in range(ns)], Ub, HDU, "given",
                a["Uinf"], a["Oinf"], a["centre"], a["Ot"], a["Et"], a["box"][0], a["box"][1], a["mu"])
    keep = si.input_ftsuoe, ts.input_ftsuoe
    si.input_ftsuoe = ts.input_ftsuoe = given
    pd = a["pd"]
    lv, lvv = [1, 2, 3], [4, 5]
    before = [x.copy() for x in pd]
    try:
        r = ts.generate_output_FTSUOE(pd, a["frameno"], a["timestep"], 4711, a["last"], bool(a["regen"]), a["form"], a["cutoff"], 0, bool(a["drag"]), bool(a["only"]), bool(a["walls"]), lv, lvv)
    finally:
        si.input_ftsuoe, ts.input_ftsuoe = keep
    names = ["F", "T", "S", "Fb", "DFb", "U", "O", "E", "Ub", "HDU"]
    out = {n: np.asarray(x, float) for n, x in zip(names, r)}
    out["inv"] = np.asarray(r[10], float)
    for n, x in zip(["Uinf", "Oinf", "centre", "Ot", "Et"], r[12:17]):
        out[n] = np.asarray(x, float)
    kw = dict(regenerate_Minfinity=bool(a["regen"]), cutoff_factor=a["cutoff"], use_drag_Minfinity=bool(a["drag"]), use_Minfinity_only=bool(a["only"]), mu=a["mu"])
    if np.array_equal(a["box"][0], a["box"][1]):
        G = g.generate_grand_resistance_matrix(pd, a["last"], **kw)
    else:
        G = g.generate_grand_resistance_matrix_periodic(pd, a["last"], a["box"][0], a["box"][1], Ot_infinity=a["Ot"], Et_infinity=a["Et"], **kw)
    out["R"], out["Rinv"] = np.asarray(G[0], float), np.asarray(G[2], float)
    out["asked"] = all(c == (4711, a["frameno"], a["timestep"], a["form"], True, True) for c in calls) and len(calls) > 0
    out["kept"] = all(bool(np.array_equal(x, y)) for x, y in zip(before, pd)) and lvv == [4, 5] and r[18] is lvv
    return out
'''

FORMS = ["fts", "fte", "ufte", "ufteu", "duf"]


def prescribed(form, ns, nd, fs, fd):
    """name -> range of particles whose value is given."""
    A, B = range(ns), range(nd)
    p = dict(T=A, F=range(fs, ns), U=range(fs), Fb=range(fd, nd), DFb=range(fd, nd), Ub=range(fd), HDU=range(fd))
    p["S" if form == "fts" else "E"] = A
    return p


def check_real(ck, a, tag):
    ns, nd, fs, fd, form = len(a["pd"][0]), len(a["pd"][3]), a["fs"], a["fd"], a["form"]
    n = 11 * ns + 6 * nd
    rep = dict(function="generate_output_FTSUOE", input=a)
    try:
        g = ck.real.call(CODE, a, 300)
    except real.RealError as e:
        ck.violation("%s: solving for the frame raised %s" % (form, str(e)[:200]), dict(rep, error=str(e)))
        return False
    ck.evaluated((tag, form, ns, nd, fs, fd, repr(real.enc(a["pd"]))[:200], a["regen"], a["only"]), dict(form=form, spheres=ns, dumbbells=nd, fixed_spheres=fs, fixed_dumbbells=fd, class_=tag))
    if not g["asked"]:
        ck.violation("%s: the inputs of another frame or configuration were used" % form, rep)
        return False
    if not g["kept"]:
        ck.violation("%s: the configuration or the stored velocities were modified" % form, rep)
        return False
    for k, rs in prescribed(form, ns, nd, fs, fd).items():
        if len(rs) and not (np.shape(g[k])[0] >= rs[-1] + 1 and np.array_equal(np.asarray(g[k])[rs[0]:rs[-1] + 1], np.asarray(a["vals"][k], float)[rs[0]:rs[-1] + 1])):
            ck.violation("%s: prescribed %s is not returned" % (form, k), dict(rep, expected=a["vals"][k], got=g[k]))
            return False
    for k in ("Uinf", "Oinf", "centre", "Ot", "Et"):
        if not np.array_equal(g[k], np.asarray(a[k], float)):
            ck.violation("%s: background flow %s is not returned" % (form, k), dict(rep, expected=a[k], got=g[k]))
            return False
    E5 = spec_far.basis_np()
    c5 = lambda v: np.einsum("mij,pij->pm", E5, np.asarray(v, float).reshape(ns, 3, 3)).ravel()
    try:
        x = np.concatenate([g["U"].reshape(3 * ns), g["O"].reshape(3 * ns), c5(g["E"]), g["Ub"].reshape(3 * nd), g["HDU"].reshape(3 * nd)])
        y = np.concatenate([g["F"].reshape(3 * ns), g["T"].reshape(3 * ns), c5(g["S"]), g["Fb"].reshape(3 * nd), g["DFb"].reshape(3 * nd)])
    except ValueError as e:
        ck.violation("%s: a returned quantity has the wrong shape" % form, dict(rep, shapes={k: list(np.shape(v)) for k, v in g.items()}))
        return False
    if np.shape(g["inv"]) != np.shape(g["Rinv"]) or not np.allclose(g["inv"], g["Rinv"], rtol=1e-9, atol=1e-12):
        ck.violation("%s: returned far-field inverse is not the one used" % form, rep)
        return False
    # the normwise backward error, row by row
    err, sc = np.abs(g["R"] @ x - y), np.abs(g["R"]) @ np.abs(x) + np.abs(y)
    if not np.all(err <= 1e-7 * sc + 1e-9 * max(1., sc.max())):
        k = int(np.argmax(err / (sc + 1e-300)))
        ck.violation("%s: the returned quantities do not satisfy the resistance relation (row %d)" % (form, k), dict(rep, row=k, error=float(err[k]), scale=float(sc[k])))
        return False
    return True


def vals(rng, ns, nd):
    V = lambda k: rng.uniform(-2, 2, (k, 3))

    def st(k):
        m = rng.uniform(-1, 1, (k, 3, 3))
        m = m + np.transpose(m, (0, 2, 1))
        return m - np.eye(3) * np.einsum("pii->p", m)[:, None, None] / 3
    return dict(F=V(ns), T=V(ns), S=st(ns), E=st(ns), U=V(ns), Fb=V(nd), DFb=V(nd), Ub=V(nd), HDU=V(nd))


def example(rng, form, ns, nd, fs, fd, periodic=False, regen=1, only=0, drag=0, walls=0):
    pd = c11.cluster(rng, ns, nd, (1.,), 2.3)
    n = 11 * ns + 6 * nd
    q = rng.normal(size=(n, n))
    a = dict(pd=pd, form=form, fs=fs, fd=fd, vals=vals(rng, ns, nd), mu=float(rng.uniform(.4, 2)), cutoff=2., frameno=int(rng.integers(0, 50)), timestep=.1,
             last=q @ q.T / n + np.eye(n) * 5, regen=regen, only=only, drag=drag, walls=walls, Uinf=rng.uniform(-1, 1, 3), Oinf=rng.uniform(-1, 1, 3), centre=rng.uniform(-1, 1, 3))
    if periodic:
        e = float(rng.uniform(-.5, .5))
        a.update(box=[np.array([-1.2, -1.2, -1.2]), np.array([6., 6.5, 7.])], Ot=np.array([0, e, 0]), Et=np.array([[0, 0, e], [0, 0, 0], [e, 0, 0]]))
    else:
        a.update(box=[np.array([0., 0, 0]), np.array([0., 0, 0])], Ot=np.zeros(3), Et=np.zeros((3, 3)))
    return a


class Tagged:
    """A matrix known only by how it was obtained."""
    def __init__(self, *what):
        self.what = what


def stubs(w, tools, grm, pd, last, regen, only, cut, mu, box, bg, periodic):
    """Conversions and assembly replaced by their contracts (C09, C11); pd() is the configuration."""
    same = lambda x, y: c11.norm(x) == c11.norm(y)

    def conv(name, src):
        sig = inspect.signature(getattr(tools, name))

        def f(*args, **kw):
            b = sig.bind(*args, **kw).arguments
            ms = [v for v in b.values() if isinstance(v, Tagged)]
            if len(ms) != 1 or ms[0].what[0] != src or b.get("posdata") is not pd():
                raise Unsupported("%s used outside its contract" % name)
            nums = {k: v for k, v in b.items() if "fixed" in k}
            d = dict(ms[0].what[1])
            for k, v in nums.items():
                kk = "fd" if "dumbbell" in k else "fs"
                if kk in d and not lazyarr._same(d[kk], v):
                    raise Unsupported("inconsistent numbers of fixed particles")
                d[kk] = v
            return Tagged({"fts_to_fte_matrix": "fte", "fte_to_ufte_matrix": "ufte", "ufte_to_ufteu_matrix": "ufteu", "fts_to_duf_matrix": "duf"}[name], d)
        return f
    for nm, src in (("fts_to_fte_matrix", "fts"), ("fte_to_ufte_matrix", "fte"), ("ufte_to_ufteu_matrix", "ufte"), ("fts_to_duf_matrix", "fts")):
        setattr(tools, nm, conv(nm, src))

    def assemble(name, per):
        sig = inspect.signature(getattr(grm, name))

        def f(*args, **kw):
            ba = sig.bind(*args, **kw)
            ba.apply_defaults()
            b = ba.arguments
            ok = b["posdata"] is pd() and b["last_generated_Minfinity_inverse"] is last and b["regenerate_Minfinity"] is regen and same(b["cutoff_factor"], cut) \
                and b["use_Minfinity_only"] is only and same(b["mu"], mu) and b["use_drag_Minfinity"] is False and per == periodic
            if per:
                ok = ok and same(b["box_bottom_left"], box[0]) and same(b["box_top_right"], box[1]) and same(b["Ot_infinity"], bg["Ot"]) and same(b["Et_infinity"], bg["Et"])
            sym.CTX.user["args"] = bool(ok)
            return Tagged("fts", {}), "R", Tagged("inverse"), [0, 0, 0]
        return f
    for nm, per in (("generate_grand_resistance_matrix", False), ("generate_grand_resistance_matrix_periodic", True)):
        setattr(grm, nm, assemble(nm, per))


def deductive(ck, form, ns, nd, fs, fd, periodic):
    tag = "%s%s %d/%d spheres %d/%d dumbbells" % (form, " periodic" if periodic else "", fs, ns, fd, nd)
    w = common.world_no_tables()
    P = "pippa"
    S = {}
    sh = lambda nm, *s: common.sarr(nm, *s)
    val = dict(F=sh("F", ns, 3), T=sh("T", ns, 3), U=sh("U", ns, 3), Fb=sh("Fb", nd, 3), DFb=sh("DFb", nd, 3), Ub=sh("Ub", nd, 3), HDU=sh("HDU", nd, 3))
    for k in "SE":
        m = np.empty((ns, 3, 3), dtype=object)
        for i in range(ns):
            t = [ring.free("%s%d_%d" % (k, i, j)) for j in range(5)]
            m[i] = [[t[0], t[1], t[2]], [t[1], t[3], t[4]], [t[2], t[4], -t[0] - t[3]]]
        val[k] = m
    bg = dict(Uinf=sh("Ui", 3), Oinf=sh("Oi", 3), centre=sh("ce", 3), Ot=sh("Ot", 3), Et=sh("Et", 3, 3))
    mu, cut, ts = ring.free("mu", pos=True), ring.free("cut", pos=True), ring.free("dt", pos=True)
    lv, lvv, last, frameno = object(), object(), Tagged("last"), 7
    regen, only = object(), object()
    tools = w.load("functions.simulation_tools")
    grm = w.load("functions.generate_grand_resistance_matrix")
    inp = w.load("setups.inputs")
    pd = common.sposd(ns, nd)

    def same(x, y):
        return c11.norm(x) == c11.norm(y)

    box = (sh("b", 3), sh("c", 3)) if periodic else (common.zarr(3), common.zarr(3))

    stubs(w, tools, grm, lambda: pd, last, regen, only, cut, mu, box, bg, periodic)
    isig = inspect.signature(inp.input_ftsuoe)

    def given(*args, **kw):
        ba = isig.bind(*args, **kw)
        ba.apply_defaults()
        b = ba.arguments
        good = b["n"] == 4711 and b["posdata"] is pd and b["frameno"] == frameno and same(b["timestep"], ts) and b["last_velocities"] is lv and b["input_form"] == form
        sym.CTX.user["inputs"] = sym.CTX.user.get("inputs", True) and bool(good)
        L = lambda x: [list(r) for r in x]
        e3 = lambda k: [[P] * 3 for _ in range(k)]
        e33 = lambda k: [[[P] * 3 for _ in range(3)] for _ in range(k)]
        F, U, Fb, DFb, Ub, HDU = e3(ns), e3(ns), e3(nd), e3(nd), e3(nd), e3(nd)
        F[fs:], U[:fs] = L(val["F"])[fs:], L(val["U"])[:fs]
        Fb[fd:], DFb[fd:] = L(val["Fb"])[fd:], L(val["DFb"])[fd:]
        Ub[:fd], HDU[:fd] = L(val["Ub"])[:fd], L(val["HDU"])[:fd]
        Sx = [[list(q) for q in r] for r in val["S"]] if form == "fts" else e33(ns)
        Ex = e33(ns) if form == "fts" else [[list(q) for q in r] for r in val["E"]]
        return (F, L(val["T"]), Sx, [[P] * 5 for _ in range(ns)], Fb, DFb, U, e3(ns), Ex, [[P] * 5 for _ in range(ns)], Ub, HDU, "given",
                bg["Uinf"], bg["Oinf"], bg["centre"], bg["Ot"], bg["Et"], box[0], box[1], mu)
    inp.input_ftsuoe = given
    m = w.load(MODULE)
    n = 11 * ns + 6 * nd
    sol = sh("v", n)

    def solve(mat, rhs):
        if not isinstance(mat, Tagged):
            raise Unsupported("solve with %r" % (type(mat),))
        rhs = np.asarray(facade.toarr(rhs), dtype=object)
        if rhs.shape != (n,):
            raise ValueError("solve: mismatch %s" % (rhs.shape,))
        sym.CTX.user["solve"] = (mat.what, rhs)
        return sol.copy()

    def harness():
        facade._Linalg.SOLVE[0] = solve
        try:
            if periodic:
                # a real box: the corners differ in some component
                sym.assume(box[0][0] < box[1][0])
            r = m.generate_output_FTSUOE(pd, frameno, ts, 4711, last, regen, form, cut, 0, False, only, False, lv, lvv)
        finally:
            facade._Linalg.SOLVE[0] = None
        return r, sym.CTX.user
    E5 = spec_far.basis()

    def c5(t):
        t = np.asarray(facade.toarr(t), dtype=object).reshape(3, 3)
        return [sum((SR.lift(t[i][j]) * E5[q][i][j] for i in range(3) for j in range(3)), SR.const(0)) for q in range(5)]

    def conc(env, name):
        rng = np.random.default_rng(2)
        for q in range(3):
            if not check_real(ck, example(rng, form, ns, nd, fs, fd, periodic), "counterexample"):
                return
    seen = 0
    for ctx, (kd, res) in sym.explore(harness, limit=40, deadline=ck.deadline):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        r, user = res
        seen += 1
        names = ["F", "T", "S", "Fb", "DFb", "U", "O", "E", "Ub", "HDU"]
        size = dict(F=(ns, 3), T=(ns, 3), S=(ns, 3, 3), Fb=(nd, 3), DFb=(nd, 3), U=(ns, 3), O=(ns, 3), E=(ns, 3, 3), Ub=(nd, 3), HDU=(nd, 3))
        out = {}
        for k, x in zip(names, r):
            x = np.asarray(facade.toarr(x), dtype=object)
            if x.size == 0 and 0 in size[k]:
                x = x.reshape(size[k])
            if x.shape != size[k]:
                ck.record("%s: shape of %s" % (tag, k), "undecided", "shape", scope="bounded", detail=str(x.shape))
                raise Unsupported("shape of %s: %s" % (k, x.shape))
            out[k] = x
        for what, key in (("matrix of this configuration", "args"), ("inputs of this frame", "inputs")):
            ck.record("%s: %s" % (tag, what), "proved" if user.get(key) else "undecided", "contract", 0, "bounded")
        ck.record("%s: returned inverse" % tag, "proved" if isinstance(r[10], Tagged) and r[10].what[0] == "inverse" else "undecided", "contract", 0, "bounded")
        if "solve" not in user:
            raise Unsupported("nothing was solved")
        (how, d), rhs = user["solve"]
        want = dict(form=form)
        okform = how == form and d.get("fs", 0) == (fs if form in ("ufte", "ufteu") else 0) and d.get("fd", 0) == (fd if form in ("ufteu", "duf") else 0)
        ck.record("%s: the system solved is the one for these prescribed values" % tag, "proved" if okform else "undecided", "contract", 0, "bounded")
        for k, rs in prescribed(form, ns, nd, fs, fd).items():
            for i in rs:
                for q in np.ndindex(*size[k][1:]):
                    ck.zero("%s: prescribed %s[%d]%s" % (tag, k, i, list(q)), SR.lift(out[k][(i,) + q]) - SR.lift(val[k][(i,) + q]), ctx, conc, scope="bounded")
        x = list(out["U"].ravel()) + list(out["O"].ravel()) + [v for i in range(ns) for v in c5(out["E"][i])] + list(out["Ub"].ravel()) + list(out["HDU"].ravel())
        y = list(out["F"].ravel()) + list(out["T"].ravel()) + [v for i in range(ns) for v in c5(out["S"][i])] + list(out["Fb"].ravel()) + list(out["DFb"].ravel())
        sw = set(c09.exchanged(form, ns, nd, fs, fd))
        for i in range(n):
            a, b = (y[i], x[i]) if i in sw else (x[i], y[i])
            ck.zero("%s: unknown[%d]" % (tag, i), SR.lift(a) - sol[i], ctx, conc, scope="bounded")
            ck.zero("%s: given[%d]" % (tag, i), SR.lift(b) - SR.lift(rhs[i]), ctx, conc, scope="bounded")
        for k, v in zip(("Uinf", "Oinf", "centre", "Ot", "Et"), r[12:17]):
            ck.record("%s: background %s returned" % (tag, k), "proved" if same(v, bg[k]) else "undecided", "contract", 0, "bounded")
    if not seen:
        raise Unsupported("vacuous")


def some(form):
    """Which kinds of particle there may be (at least one of) with the form."""
    return {"duf": [(0, 1)], "fts": [(1, 0), (0, 1), (1, 1)], "ufteu": [(1, 1)]}.get(form, [(1, 0), (1, 1)])


def unbounded(ck, form, has_s, has_d, periodic):
    """Any numbers of spheres and dumbbells, any numbers of prescribed ones, any sphere i and dumbbell h."""
    tag = "%s%s %s%s" % (form, " periodic" if periodic else "", "spheres" if has_s else "", "dumbbells" if has_d else "")
    w = common.world_no_tables()
    P = "pippa"
    sh = lambda nm, *s: common.sarr(nm, *s)
    bg = dict(Uinf=sh("Ui", 3), Oinf=sh("Oi", 3), centre=sh("ce", 3), Ot=sh("Ot", 3), Et=sh("Et", 3, 3))
    mu, cut, ts = ring.free("mu", pos=True), ring.free("cut", pos=True), ring.free("dt", pos=True)
    lv, lvv, last, frameno = object(), object(), Tagged("last"), 7
    regen, only = object(), object()
    box = (sh("b", 3), sh("c", 3)) if periodic else (common.zarr(3), common.zarr(3))
    tools = w.load("functions.simulation_tools")
    grm = w.load("functions.generate_grand_resistance_matrix")
    inp = w.load("setups.inputs")
    S = {}
    stubs(w, tools, grm, lambda: S["pd"], last, regen, only, cut, mu, box, bg, periodic)
    isig = inspect.signature(inp.input_ftsuoe)
    same = lambda x, y: c11.norm(x) == c11.norm(y)

    def given(*args, **kw):
        ba = isig.bind(*args, **kw)
        ba.apply_defaults()
        b = ba.arguments
        good = b["n"] == 4711 and b["posdata"] is S["pd"] and b["frameno"] == frameno and same(b["timestep"], ts) and b["last_velocities"] is lv and b["input_form"] == form
        sym.CTX.user["inputs"] = sym.CTX.user.get("inputs", True) and bool(good)
        V, ns, nd, fs, fd = S["val"], S["ns"], S["nd"], S["fs"], S["fd"]

        def blank(n, *tail):
            if not isinstance(n, SI):
                return []
            mk = lambda t: [mk(t[1:]) for _ in range(t[0])] if t else P
            return lazyarr.listcomp(lambda: [mk(tail) for _ in lazyarr.citer(facade.SymRange(0, n))])
        full = lambda k: lazyarr.tolist(V[k]) if isinstance(V[k], lazyarr.LArr) else []
        head = lambda k, f: lazyarr.SymList([("a", rowmap.array(k, (f, 3)))]) if isinstance(f, SI) else []

        def tailof(k, f, n):
            """rows f..n-1 are given"""
            if not isinstance(n, SI):
                return []
            if not isinstance(f, SI):
                return full(k)
            return lazyarr.SymList([("a", lazyarr.LArr((n - f, 3), lambda o: V[k].get((lazyarr.canon(SI.lift(o[0]) + f),) + tuple(o[1:]))))])
        tot = lambda n, f: n - f if isinstance(n, SI) else 0
        pre = lambda f: blank(f, 3) if isinstance(f, SI) else []
        F, U = pre(fs) + tailof("F", fs, ns), head("U", fs) + blank(tot(ns, fs), 3)
        Fb, DFb = pre(fd) + tailof("Fb", fd, nd), pre(fd) + tailof("DFb", fd, nd)
        Ub, HDU = head("Ub", fd) + blank(tot(nd, fd), 3), head("HDU", fd) + blank(tot(nd, fd), 3)
        Sx = full("S") if form == "fts" else blank(ns, 3, 3)
        Ex = blank(ns, 3, 3) if form == "fts" else full("E")
        return (F, full("T"), Sx, blank(ns, 5), Fb, DFb, U, blank(ns, 3), Ex, blank(ns, 5), Ub, HDU, "given",
                bg["Uinf"], bg["Oinf"], bg["centre"], bg["Ot"], bg["Et"], box[0], box[1], mu)
    inp.input_ftsuoe = given
    m = w.load(MODULE)
    E5 = spec_far.basis()
    canon = lazyarr.canon

    def harness():
        facade.CREATED.clear()
        u = sym.CTX.user
        ns, nd = SI.var("ns") if has_s else 0, SI.var("nd") if has_d else 0
        i, h = SI.var("i"), SI.var("h")
        fs = SI.var("fs") if form in ("ufte", "ufteu") else 0
        fd = SI.var("fd") if form in ("ufteu", "duf") else 0
        for n, k, f in ((ns, i, fs), (nd, h, fd)):
            if isinstance(n, SI):
                sym.iassume(n.z() >= 1)
                sym.iassume(k.z() >= 0)
                sym.iassume(k.z() < n.z())
                if isinstance(f, SI):
                    sym.iassume(f.z() >= 0)
                    sym.iassume(f.z() <= n.z())
        A = lambda name, n, *t: rowmap.array(name, (n,) + t) if isinstance(n, SI) else np.empty((n,) + t, dtype=object)
        st = lambda name: c07.stl(name, ns) if has_s else np.empty((0, 3, 3), dtype=object)
        S["val"] = dict(F=A("F", ns, 3), T=A("T", ns, 3), U=A("U", ns, 3), S=st("S"), E=st("E"), Fb=A("Fb", nd, 3), DFb=A("DFb", nd, 3), Ub=A("Ub", nd, 3), HDU=A("HDU", nd, 3))
        S.update(ns=ns, nd=nd, fs=fs, fd=fd)
        S["pd"] = (A("ss", ns), A("sp", ns, 3), A("rot", ns, 2, 3), A("ds", nd), A("dp", nd, 3), A("dx", nd, 3))
        n = ns * 11 + nd * 6
        sol = rowmap.array("v", (n,))

        def solve(mat, rhs):
            if not isinstance(mat, Tagged):
                raise Unsupported("solve with %r" % (type(mat),))
            rhs = facade.toarr(rhs)
            if not (isinstance(rhs, lazyarr.LArr) and rhs.ndim == 1 and lazyarr._same(rhs.shape[0], n)):
                raise Unsupported("solve: right-hand side of another length")
            u["solve"] = (mat.what, rhs.frozen())
            return sol
        facade._Linalg.SOLVE[0] = solve
        facade.LOOP_HOOK[0] = rowmap.RowMap()
        try:
            if periodic:
                sym.assume(box[0][0] < box[1][0])
            r = m.generate_output_FTSUOE(S["pd"], frameno, ts, 4711, last, regen, form, cut, 0, False, only, False, lv, lvv)
            if "solve" not in u:
                raise Unsupported("nothing was solved")
            names = ["F", "T", "S", "Fb", "DFb", "U", "O", "E", "Ub", "HDU"]
            out = {}
            for k, x in zip(names, r):
                sph = k in ("F", "T", "S", "U", "O", "E")
                if not isinstance(ns if sph else nd, SI):
                    if len(x) if not hasattr(x, "shape") else x.shape[0]:
                        raise Unsupported("%s of absent particles" % k)
                    continue
                out[k] = c07.aslazy(x, ns if sph else nd, *((3, 3) if k in "SE" else (3,)))
            (how, d), rhs = u["solve"]
            num = lambda x, y: lazyarr._same(x, y)
            okform = how == form and num(d.get("fs", 0), fs) and num(d.get("fd", 0), fd)
            zs = []
            z = lambda name, a, b: zs.append((name, a, b))
            at = lambda arr, x: arr.get((canon(x),))
            V = S["val"]
            c5 = lambda arr: [sum((SR.lift(arr.get((i, x, y))) * E5[q][x][y] for x in range(3) for y in range(3)), SR.const(0)) for q in range(5)]
            flat = lambda arr, k: [arr.get((k, c)) for c in range(3)]
            if has_s:
                fixed = isinstance(fs, SI) and lazyarr.itrue(i < fs)
                u["case"] = "sphere %s" % ("prescribed" if fixed else "free")
                for k in ("T", "S" if form == "fts" else "E", "U" if fixed else "F"):
                    for q in np.ndindex(*out[k].shape[1:]):
                        z("prescribed %s%s" % (k, list(q)), out[k].get((i,) + q), V[k].get((i,) + q))
                rows = [(0, "U", "F", 3, fixed), (ns * 3, "O", "T", 3, False), (ns * 6, "E", "S", 5, form != "fts")]
                for base, x, y, wd, swap in rows:
                    xs, ys = (c5(out[x]), c5(out[y])) if wd == 5 else (flat(out[x], i), flat(out[y], i))
                    if swap:
                        xs, ys = ys, xs
                    for c in range(wd):
                        z("unknown %s%s[%d]" % (x, y, c), xs[c], at(sol, i * wd + base + c))
                        z("given %s%s[%d]" % (x, y, c), ys[c], at(rhs, i * wd + base + c))
            if has_d:
                fixed = isinstance(fd, SI) and lazyarr.itrue(h < fd)
                u["case"] = u.get("case", "") + " dumbbell %s" % ("prescribed" if fixed else "free")
                for k in ("Ub", "HDU") if fixed else ("Fb", "DFb"):
                    for q in range(3):
                        z("prescribed %s[%d]" % (k, q), out[k].get((h, q)), V[k].get((h, q)))
                for base, x, y in ((ns * 11, "Ub", "Fb"), (ns * 11 + nd * 3, "HDU", "DFb")):
                    xs, ys = flat(out[x], h), flat(out[y], h)
                    if fixed:
                        xs, ys = ys, xs
                    for c in range(3):
                        z("unknown %s%s[%d]" % (x, y, c), xs[c], at(sol, h * 3 + base + c))
                        z("given %s%s[%d]" % (x, y, c), ys[c], at(rhs, h * 3 + base + c))
        finally:
            facade._Linalg.SOLVE[0] = None
            facade.LOOP_HOOK[0] = None
        return r, u, zs, okform

    tried = []

    def conc(env, name):
        if tried:
            return
        tried.append(name)
        rng = np.random.default_rng(2)
        for c in cases(3):
            if c[0] == form and bool(c[1]) == bool(has_s) and bool(c[2]) == bool(has_d):
                if not check_real(ck, example(rng, *c, periodic=periodic), "counterexample"):
                    return
    seen = 0
    for ctx, (kd, res) in sym.explore(harness, limit=200, deadline=ck.deadline):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        r, user, zs, okform = res
        seen += 1
        t = "%s, %s: " % (tag, user.get("case"))
        ok = lambda name, c: ck.record(t + name, "proved" if c else "undecided", "contract")
        ok("matrix of this configuration", user.get("args"))
        ok("inputs of this frame", user.get("inputs"))
        ok("returned inverse", isinstance(r[10], Tagged) and r[10].what[0] == "inverse")
        ok("the system solved is the one for these prescribed values", okform)
        for k, v in zip(("Uinf", "Oinf", "centre", "Ot", "Et"), r[12:17]):
            ok("background %s returned" % k, same(v, bg[k]))
        for name, a, b in zs:
            if isinstance(a, str) or isinstance(b, str):
                ok(name + " (a placeholder is left)", False)
            else:
                ck.zero(t + name, SR.lift(a) - SR.lift(b), ctx, conc)
    if not seen:
        raise Unsupported("vacuous")


def cases(top):
    for form in FORMS:
        for ns in ([0] if form == "duf" else range(0 if form == "fts" else 1, top)):
            for nd in range(1 if form in ("ufteu", "duf") else 0, top):
                if ns + nd == 0:
                    continue
                for fs in range(ns + 1) if form in ("ufte", "ufteu") else [0]:
                    for fd in range(nd + 1) if form in ("ufteu", "duf") else [0]:
                        yield form, ns, nd, fs, fd


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("numpy.linalg.solve(M, f) returns v with M v = f")
    ck.assume("matrix conversions and assembly satisfy their contracts (C09, C11); prescribed particles are numbered first and forms with strain rates have a sphere, as the code requires")
    ck.under_contract("generate_output_FTSUOE", "construct_force_vector_from_fts", "deconstruct_velocity_vector_for_fts", "condense_and_flatten", "uncondense")
    top = 3 if ck.quick else 4
    done = []
    for form in FORMS:
        for s, d in some(form):
            for per in (False, True):
                done.append(ck.guard("%s, any numbers of particles" % form, unbounded, ck, form, s, d, per))
    if not all(done):
        ck.bounds.append("fewer than %d spheres and %d dumbbells, every number of fixed ones, all five forms, open and periodic; all values symbolic" % (top, top))
        for c in cases(top):
            ck.guard("%s %d %d %d %d" % c, deductive, ck, *c, False)
        for c in cases(2):
            ck.guard("periodic %s %d %d %d %d" % c, deductive, ck, *c, True)
    rng = np.random.default_rng(ck.seed + 10)
    for k, c in enumerate(cases(3)):
        if not check_real(ck, example(rng, *c, regen=int(k % 3 != 2), only=int(k % 5 == 4), walls=int(k % 2)), "enumerated"):
            return
    for k, form in enumerate(FORMS * (1 if ck.quick else 4)):
        ns, nd = (0, 2) if form == "duf" else (2, 1)
        fs, fd = (1 if form[0] == "u" else 0), (1 if form in ("ufteu", "duf") else 0)
        if not check_real(ck, example(rng, form, ns, nd, fs, fd, periodic=True), "periodic"):
            return
    for k in range(3 if ck.quick else 20):
        c = [x for x in cases(5) if x[1] + 2 * x[2] <= 8]
        if not check_real(ck, example(rng, *c[int(rng.integers(len(c)))], regen=int(rng.integers(2))), "random"):
            return
