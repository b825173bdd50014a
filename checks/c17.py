"""C17: the periodic far-field mobility is a lattice sum over images, placed pair by pair."""
import inspect
import math
import sys
import numpy as np
import z3
from vc import ring, sym, facade, lazyarr, common, spec_far, spec_per, per, pairloop
from vc.ring import SR, Unsupported
from vc.sym import SI
from vc.lazyarr import LArr, ikey, BodyEnd
from vc.common import oarr, gid

MODULE = "functions.generate_Minfinity_periodic"
TENSORS = (("M11", "A", 2), ("M12", "B", 2), ("M13", "G", 3), ("M22", "C", 2), ("M23", "H", 3), ("M33", "M", 4))
REAL = dict(A="ar", B="btr", G="gtr", C="cr", H="htr", M="mr")
WAVE = dict(A="aktilde", B="btktilde", G="gtktilde", C="cktilde", H="htktilde", M="mktilde")
D3 = range(3)
IX = "ijkl"


def key(x):
    return ";".join("%s*%s" % (c, m) for m, c in sorted(SR.lift(x).t.items()))


def args_of(fn, a, k, canon=None):
    """Arguments of a call by name; with `canon`, by the contract's names (parameters may be renamed)."""
    b = inspect.signature(fn).bind(*a, **k).arguments
    par = list(inspect.signature(fn).parameters)
    if canon is None or set(canon) <= set(par):
        return b
    if len(canon) != len(par):
        raise Unsupported("parameters of %s: %s" % (fn.__name__, par))
    return {c: b[p] for c, p in zip(canon, par) if p in b}


# ---------------------------------------------------------------- lattice sums
class SumFold:
    """A loop that adds one term per index: value after = value before + sum of terms."""

    def __init__(self, kinds, term, out):
        self.kinds, self.term, self.out = kinds, term, out

    def __call__(self, it, carried=(), liveout=(), loop=None):
        if not isinstance(it, facade.SymRange) or it.step != 1 or not lazyarr._same(it.lo, 0):
            raise Unsupported("loop over %r" % (type(it),))
        kind = [n for n, v in self.kinds.items() if isinstance(it.hi, SI) and lazyarr._same(it.hi, v)]
        if len(kind) != 1:
            raise Unsupported("loop over an unknown range")
        return self.run(it, kind[0], tuple(sorted(set(carried) | set(liveout))), loop)

    def run(self, it, kind, carried, loop):
        env = sys._getframe(1).f_locals
        facade.HAVOC.clear()
        facade.AFTER.clear()
        if len(carried) != 1 or carried[0] not in env:
            raise Unsupported("the loop carries %s" % (carried,))
        name = carried[0]
        first = SR.lift(env[name])
        if sym.CTX.decide("one term of the sum over %s" % kind):
            q = SI.var("q")
            sym.iassume(z3.And(q.z() >= 0, q.z() < SI.lift(it.hi).z()))
            if not sym.ifeasible():
                raise sym.Infeasible()
            before = ring.free("sum so far")
            facade.HAVOC[loop, name] = lambda old: before
            snap = lazyarr._snapshot()
            yield q
            lazyarr._check_snapshot(snap)
            after = sys._getframe(1).f_locals[name]
            self.out.append(("term of the sum over %s" % kind, SR.lift(after) - before - self.term(kind, q)))
            raise BodyEnd()
        facade.AFTER[loop, name] = first + ring.free("SUM " + kind)


def sums(ck, ps, conc):
    """M11..M33 for any number of images and wave vectors."""
    m = common.world().load(MODULE)
    for mname, T, rank in TENSORS:
        real, wave = getattr(m, REAL[T]), getattr(m, WAVE[T])
        odd = T in "BG"
        for same in (False, True):
            for ix in np.ndindex(*(3,) * rank):
                if T == "M" and (ix[0] > ix[1] or ix[2] > ix[3] or ix[:2] == (2, 2) or ix[2:] == (2, 2)):
                    continue
                if T in "GH" and (ix[1] > ix[2] or ix[1:] == (2, 2)):
                    continue
                one_sum(ck, ps, m, mname, T, real, wave, odd, same, ix, conc)
    ck.under_contract(*[t[0] for t in TENSORS])


def one_sum(ck, ps, m, mname, T, real, wave, odd, same, ix, conc):
    fn = getattr(m, mname)
    par = list(inspect.signature(fn).parameters)
    tag = "%s%s%s" % (mname, list(ix), " self" if same else "")

    idx = list(IX[:len(ix)])
    canon = {REAL[T]: ["r", "s", "a1", "a2"] + idx + ["erfcs", "c", "mu"], WAVE[T]: ["kk", "ss", "a1", "a2"] + idx + ["RR", "c"]}

    def term(name, real_fn):
        def f(*a, **k):
            return value(name, args_of(real_fn, a, k, canon[name]))

        def value(name, b):
            got = [b[IX[p]] for p in range(len(ix))]
            vec = [x for x in (b["r"] if "r" in b else b["kk"])]
            parts = [name, str([int(x) for x in got]), "|".join(key(x) for x in vec)]
            for n in ("s", "ss", "a1", "a2", "c", "mu", "RR"):
                if n in b:
                    parts.append(n + "=" + key(b[n]))
            if "erfcs" in b and not all(SR.lift(x).is_zero() for x in vec):
                e = b["erfcs"]
                parts.append("e=" + "|".join(key(e[k2]) for k2 in range(7)))
            return ring.free(" ".join(parts))
        spec[name] = lambda **b: value(name, b)
        return f
    spec = {}
    stubs = {REAL[T]: term(REAL[T], real), WAVE[T]: term(WAVE[T], wave)}

    def harness():
        sym.CTX.user["rep"] = {}
        facade.CREATED.clear()
        cnt = {n: SI.var(n) for n in ("nX", "nXd", "nK")}
        for v in cnt.values():
            sym.iassume(v.z() >= 0)
        la = lambda n, cn, *tail, **kw: LArr((cnt[cn],) + tail, lambda o, n=n, kw=kw: ring.free("%s[%s]" % (n, ",".join(map(ikey, o))), **kw), name=n)
        mu, L, lam, a1 = (ring.free(n, pos=True) for n in ("mu", "L", "lam", "a1"))
        a2 = a1 if same else ring.free("a2", pos=True)
        c = 1 / (8 * ring.PI * mu)
        if same:
            r, s = [SR.const(0)] * 3, SR.const(0)
        else:
            s = ring.free("s", pos=True)
            r = [s * x for x in ring.unit_vector("n")]
            sym.assume(s > ring.literal("1e-8"))
        v = dict(r=oarr(r), s=s, a1=a1, a2=a2, L=L, lamb=lam, X_lmn=la("X", "nX", 3), Xdash_lmn=la("Xd", "nXd", 3), Sdash_lmn=la("Sd", "nXd", pos=True),
                 erfcs_Sdash_lmn=la("eXd", "nXd", 7), K_lmn=la("K", "nK", 3), Ks_lmn=la("Ks", "nK", pos=True), RR_K=la("RR", "nK"), num_X_points=cnt["nX"],
                 num_Xdash_points=cnt["nXd"], num_K_points=cnt["nK"], c=c, mu=mu, s_lmn=la("sX", "nX", pos=True), erfcs_lmn=la("eX", "nX", 7),
                 erfcs=oarr([ring.free("e[%d]" % k) for k in range(7)]))
        for p in range(len(ix)):
            v[IX[p]] = int(ix[p])
        for p in par:
            if p not in v:
                raise Unsupported("%s has a parameter %s" % (mname, p))

        def spec_term(kind, q):
            row = lambda a, n: [a.get((q, k)) for k in range(n)]
            if kind == "nX":
                x = row(v["X_lmn"], 3)
                return spec[REAL[T]](r=[r[k] + x[k] for k in D3], s=v["s_lmn"].get((q,)), a1=a1, a2=a2, **dict(zip(IX, ix)),
                                      erfcs=row(v["erfcs_lmn"], 7), c=c, mu=mu)
            if kind == "nXd":
                return spec[REAL[T]](r=row(v["Xdash_lmn"], 3), s=v["Sdash_lmn"].get((q,)), a1=a1, a2=a2, **dict(zip(IX, ix)),
                                      erfcs=row(v["erfcs_Sdash_lmn"], 7), c=c, mu=mu)
            k = row(v["K_lmn"], 3)
            t = spec[WAVE[T]](kk=k, ss=v["Ks_lmn"].get((q,)), a1=a1, a2=a2, **dict(zip(IX, ix)), RR=v["RR_K"].get((q,)), c=c)
            if same:
                return t
            ph = sum((k[p] * r[p] for p in D3), SR.const(0))
            return -ring.sin(ph) * t if odd else ring.cos(ph) * t
        out = []
        facade.LOOP_HOOK[0] = SumFold(cnt, spec_term, out)
        old = {n: m.__dict__[n] for n in stubs}
        m.__dict__.update(stubs)
        try:
            res = fn(**{p: v[p] for p in par})
        except BodyEnd:
            return "term", out
        finally:
            facade.LOOP_HOOK[0] = None
            m.__dict__.update(old)
        S = lambda n: ring.free("SUM " + n)
        if not same:
            exp = S("nX") + S("nK") / L ** 3
        elif odd:
            exp = SR.const(0)
        else:
            own = spec[REAL[T]](r=r, s=s, a1=a1, a2=a2, **dict(zip(IX, ix)), erfcs=v["erfcs"], c=c, mu=mu) if T != "H" else SR.const(0)
            mp = {gid(ps.L): lam, gid(ps.a1): a1, gid(ps.a2): a1, gid(ps.mu): mu}
            mp.update(ps.zero_x)
            t = ps.zero_t["ABGCHM".index(T)]
            for i in ix:
                t = t[i]
            exp = own + S("nXd") + S("nK") / L ** 3 - ring._subs(SR.lift(t), mp, {})
        out.append(("value", SR.lift(res) - exp))
        return "value", out
    seen = {"term": 0, "value": 0}
    for ctx, (kind, res) in sym.explore(harness, limit=60, deadline=ck.deadline):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            st, env = sym.sample_path(ctx, [], ck.rng)
            if st == "unsat":
                ck.dead += 1
                continue
            raise Unsupported("%s: exception on a path: %r" % (tag, res))
        seen[res[0]] += 1
        for n, d in res[1]:
            ck.zero("lattice sum %s: %s" % (tag, n), d, ctx, lambda env, nm: conc(nm))
    if not seen["value"] or (not seen["term"] and not (same and odd)):
        raise Unsupported("vacuous: %s %s" % (tag, seen))


# -------------------------------------------------------------------- assembly
class Tok:
    """The derivatives of erfc at one distance."""
    def __init__(self, s, lam):
        self.s, self.lam = SR.lift(s), SR.lift(lam)


class Lattice:
    """Callee contracts of M11..M33 inside the assembly: the coupling of the pair
    of the displacement and radii handed over, on condition that the lattice data
    handed over are those of the box."""

    def __init__(self, m):
        self.m = m
        self.fns = {t[0]: getattr(m, t[0]) for t in TENSORS}
        self.loop = m.generate_Minfinity_loop
        self.given = None

    def install(self):
        for t in TENSORS:
            self.m.__dict__[t[0]] = self.stub(t)
        self.m.generate_erfcs = lambda s, lamb: Tok(s, lamb)
        self.m.generate_Minfinity_loop = self.capture

    def capture(self, *a, **k):
        self.given = args_of(self.loop, a, k)
        return self.loop(*a, **k)

    def bad(self, b):
        """Names of lattice data that are not what the contract asks for."""
        g, out = self.given, []
        r = [SR.lift(x) for x in b["r"]]
        same = all(x.is_zero() for x in r)
        for n, v in b.items():
            if n in ("r", "s", "a1", "a2", "erfcs") or n in IX:
                continue
            if n in ("s_lmn", "erfcs_lmn"):
                if same:
                    continue
                X = g["X_lmn"]
                if len(v) != len(X):
                    out.append(n)
                    continue
                for q in range(len(X)):
                    d = ring.sqrt(sum(((r[k] + X[q][k]) ** 2 for k in D3), SR.const(0)))
                    x = v[q]
                    if n == "erfcs_lmn":
                        if not isinstance(x, Tok) or not (x.lam - SR.lift(g["lamb"])).is_zero():
                            out.append(n)
                            break
                        x = x.s
                    if not (SR.lift(x) - d).is_zero():
                        out.append(n)
                        break
            elif n not in g or not (v is g[n] or (not isinstance(v, np.ndarray) and not isinstance(g[n], np.ndarray) and (SR.lift(v) - SR.lift(g[n])).is_zero())):
                out.append(n)
        if not (SR.lift(b["s"]) ** 2 - sum((x * x for x in r), SR.const(0))).is_zero():
            out.append("s")
        return out

    def stub(self, t):
        name, T, rank = t

        def f(*a, **k):
            b = args_of(self.fns[name], a, k)
            bad = self.bad(b)
            v = coupling(T, [int(b[IX[p]]) for p in range(rank)], [SR.lift(x) for x in b["r"]], SR.lift(b["a1"]), SR.lift(b["a2"]))
            return v + ring.free("wrong " + ",".join(bad)) if bad else v
        return f


def coupling(T, ix, r, a1, a2):
    """Uninterpreted coupling with the symmetries of the Faxen couplings: even (A, C,
    H, M) or odd (B, G) in r; symmetric and traceless in each strain pair."""
    pairs = {"G": [1], "H": [1], "M": [0, 2]}.get(T, [])
    for p in pairs:
        i, j = ix[p], ix[p + 1]
        if i == j == 2:
            return -coupling(T, ix[:p] + [0, 0] + ix[p + 2:], r, a1, a2) - coupling(T, ix[:p] + [1, 1] + ix[p + 2:], r, a1, a2)
        if i > j:
            return coupling(T, ix[:p] + [j, i] + ix[p + 2:], r, a1, a2)
    same = all(x.is_zero() for x in r)
    sg = 1
    if not same:
        lead = next(x for x in r if x.t)
        if sorted(lead.t.items())[0][1] < 0:
            r = [-x for x in r]
            sg = -1 if T in "BG" else 1
    elif T in "BG":
        return SR.const(0)
    d = a1 - a2
    if d.t and sym.known_sign(d) == 0:
        d = SR.const(0)
    rad = "%s/%s" % (key(a1 + a2), key(d))
    return sg * ring.free("%s%s(%s; %s)" % (T, ix, "|".join(key(x) for x in r), rad))


def condensed(r, a1, a2):
    t = {}
    for T, rank in (("A", 2), ("B", 2), ("G", 3), ("C", 2), ("H", 3), ("M", 4)):
        def build(ix):
            return coupling(T, ix, r, a1, a2) if len(ix) == rank else [build(ix + [i]) for i in D3]
        t[T] = build([])
    return spec_far.condense(*[t[T] for T in "ABGCHM"])


class Near(SR):
    """A row length in the truncation test: decided by one sample box."""
    env = {}

    def __le__(self, o): return common.fval(self, self.env) <= common.fval(o, self.env)
    def __lt__(self, o): return common.fval(self, self.env) < common.fval(o, self.env)
    def __gt__(self, o): return bool(self.t) and common.fval(self, self.env) > common.fval(o, self.env)
    def __ge__(self, o): return common.fval(self, self.env) >= common.fval(o, self.env)
    __hash__ = SR.__hash__


def row_norm(env):
    Near.env = env

    class LA(facade._Linalg):
        @staticmethod
        def norm(x, axis=None, ord=None):
            if axis != 1:
                return facade._Linalg.norm(x, axis)
            out = np.empty(len(x), dtype=object)
            for q in range(len(x)):
                out[q] = Near(ring.sqrt(sum((SR.lift(c) ** 2 for c in x[q]), SR.const(0))).t)
            return out
    return LA


def assembly(ck, ps, conc):
    """Any number of spheres and dumbbells in any box (its lattice vectors are symbols)."""
    w = common.world()
    m = w.load(MODULE)
    m.how_far_to_reproduce_gridpoints = 1
    H = [[ring.free("h%d%d" % (i, j)) for j in D3] for i in D3]
    Ls = [ring.free("L" + x, pos=True) for x in "xyz"]
    env = {gid(x): 1.0 for x in Ls}
    env.update({gid(H[i][j]): float(i == j) for i in D3 for j in D3})
    lat = Lattice(m)
    lat.install()
    m.shear_basis_vectors = lambda *a, **k: oarr(H)
    mu = ring.free("mu", pos=True)
    lim = ring.literal("2.001")

    def near(r, s, a1, a2):
        bool(a1 == a2)          # equal and unequal radii on paths of their own
        if 2 * s / (a1 + a2) < lim:
            so = lim * (a1 + a2) / 2
            return [x * so / s for x in r], so
        return r, s

    def pairfn(same, r, s, a1, a2):
        return condensed(r, a1, a2), condensed([-x for x in r], a2, a1)
    ck.draw = lambda G, rng: {"s": rng.uniform(.3, 5), "h": rng.uniform(.5, 1.5), "d": rng.uniform(-.4, .4)}.get(
        G.name, rng.uniform(-.7, .7) if G.name[0] == "n" else None)
    done = {}

    def cc(n, ctx, name):
        if n is None or done.get(n, 0) >= 1 or len(done) > 6:
            return
        done[n] = 1
        rng = np.random.default_rng(ck.seed + 3)
        for equal in (False, True):
            if not random_case(ck, ps, rng, min(n[0], 3), min(n[1], 3), equal, None, "obligation %s" % name, "counterexample"):
                return

    def call(B):
        w.np.linalg = row_norm(env)
        z = common.zarr
        return m.generate_Minfinity_periodic(B.posdata(), z(3), oarr(Ls), 0, 0, mu, z(3), z(3, 3))[0]
    r = pairloop.prove(ck, lambda: None, call, pairfn, True, near, deadline=ck.t0 + (420 if ck.quick else 600), conc=cc,
                       havoc={"erfcs": lambda old: Tok(SR.const(0), SR.const(0)), "s_lmn": lambda old: None})
    ck.under_contract("generate_Minfinity_periodic", "generate_Minfinity_loop", "con_M13_row", "con_M23_row", "submatrix_coords_tuple", "posdata_data",
                      "is_sphere", "is_dumbbell_bead_1", "is_dumbbell_bead_2", "norm")
    return r


# ---------------------------------------------------------------- lattice data
class Captured(Exception):
    pass


def lattice_data(ck, conc, boxes):
    """What generate_Minfinity_periodic hands to the loop, for box lengths and shear
    that are symbols; the truncation is that of a sample box."""
    for bi, (box, gam, axis) in enumerate(boxes):
        w = common.world()
        m = w.load(MODULE)
        Ls = [ring.free("L" + x, pos=True) for x in "xyz"]
        g = ring.free("gamma")
        mu = ring.free("mu", pos=True)
        env = {gid(Ls[i]): box[i] for i in D3}
        env[gid(g)] = gam
        tag = "box %s sheared %g in %s" % (list(box), gam, axis)
        got = {}
        loop = m.generate_Minfinity_loop

        def stub(*a, **k):
            got.update(args_of(loop, a, k))
            raise Captured()
        m.generate_Minfinity_loop = stub
        O, E = common.zarr(3), common.zarr(3, 3)
        if gam:
            # displacement of the face: x += gamma y or x += gamma z
            h = g / 2
            d = 1 if axis == "xy" else 2
            E[0, d] = E[d, 0] = h
            O[3 - d] = -h if d == 1 else h
        w.np.linalg = row_norm(env)

        def harness():
            try:
                m.generate_Minfinity_periodic(common.sposd(1, 0), common.zarr(3), oarr(Ls), 0, 0, mu, O, E)
            except Captured:
                return dict(got)
            raise Unsupported("generate_Minfinity_loop not reached")
        n = 0
        for ctx, (kind, res) in sym.explore(harness, limit=10, deadline=ck.deadline):
            ck.paths += 1
            if kind != "ok":
                if kind == "dead":
                    ck.dead += 1
                    continue
                raise Unsupported("exception on a path: %r" % (res,))
            n += 1
            judge_lattice(ck, m, ctx, res, Ls, g if gam else None, axis, env, mu, tag, conc)
        if not n:
            raise Unsupported("vacuous: lattice")


def judge_lattice(ck, m, ctx, b, Ls, g, axis, env, mu, tag, conc):
    scope = "truncation set of a sample box"
    z = lambda n, d: ck.zero("%s: %s" % (tag, n), d, ctx, lambda e, nm: conc(nm), scope)
    ok = lambda n, c: (ck.record("%s: %s" % (tag, n), "proved" if c else "refuted", "enumeration", 0.0, scope), None if c else conc(n))
    H = [[Ls[i] if i == j else SR.const(0) for j in D3] for i in D3]
    if g is not None:
        # the sheared face is displaced by gamma times its distance, up to whole boxes
        d = 1 if axis == "xy" else 2
        H[d][0] = sym.mod(g * Ls[d], Ls[0])
    V = Ls[0] * Ls[1] * Ls[2]
    f = lambda x: common.fval(x, env)
    Hn = np.array([[f(x) for x in r] for r in H])
    rows = {}
    for n in ("X_lmn", "Xdash_lmn"):
        ns = []
        for q, x in enumerate(b[n]):
            k = np.rint(np.array([f(y) for y in x]) @ np.linalg.inv(Hn)).astype(int)
            for c in D3:
                z("%s[%d] is a lattice vector, component %d" % (n, q, c), SR.lift(x[c]) - sum((int(k[i]) * H[i][c] for i in D3), SR.const(0)))
            ns.append(tuple(int(i) for i in k))
        rows[n] = ns
    rec = []
    for q, x in enumerate(b["K_lmn"]):
        k = np.rint(Hn @ np.array([f(y) for y in x]) / (2 * math.pi)).astype(int)
        for i in D3:
            z("K_lmn[%d] is in the reciprocal lattice, edge %d" % (q, i),
              sum((SR.lift(x[c]) * H[i][c] for c in D3), SR.const(0)) - 2 * ring.PI * int(k[i]))
        rec.append(tuple(int(i) for i in k))
    unit = [tuple(int(i == j) for i in D3) for j in D3]
    for n, s in (("X_lmn", rows["X_lmn"]), ("K_lmn", rec)):
        ok(n + " has each vector once", len(set(s)) == len(s))
        ok(n + " holds the opposite of every vector", {tuple(-i for i in x) for x in s} == set(s))
        ok(n + " holds the nearest images", all(u in s for u in unit))
    ok("X_lmn holds zero", (0, 0, 0) in rows["X_lmn"])
    ok("K_lmn does not hold zero", (0, 0, 0) not in rec)
    ok("Xdash_lmn is X_lmn without zero", sorted(rows["Xdash_lmn"]) == sorted(x for x in rows["X_lmn"] if any(x)))
    for n, arr in (("num_X_points", "X_lmn"), ("num_Xdash_points", "Xdash_lmn"), ("num_K_points", "K_lmn")):
        ok("%s counts %s" % (n, arr), int(b[n]) == len(b[arr]))
    lam = SR.lift(b["lamb"])
    ok("splitting parameter is positive", f(lam) > 0)
    z("L^3 is the volume", SR.lift(b["L"]) ** 3 - V)
    z("c is 1/(8 pi mu)", SR.lift(b["c"]) - 1 / (8 * ring.PI * mu))
    for n, arr in (("Sdash_lmn", "Xdash_lmn"), ("Ks_lmn", "K_lmn")):
        for q, x in enumerate(b[arr]):
            z("%s[%d] is the length" % (n, q), SR.lift(b[n][q]) ** 2 - sum((SR.lift(c) ** 2 for c in x), SR.const(0)))
            ok("%s[%d] is not negative" % (n, q), f(b[n][q]) > 0)
    for q, s in enumerate(b["Sdash_lmn"]):
        e = m.generate_erfcs(SR.lift(s), lam)
        for k in range(7):
            z("erfcs_Sdash_lmn[%d][%d]" % (q, k), SR.lift(b["erfcs_Sdash_lmn"][q][k]) - e[k])
    for q, s in enumerate(b["Ks_lmn"]):
        k2 = SR.lift(s) ** 2
        z("RR_K[%d] is the transform of r erf(lambda r)" % q, SR.lift(b["RR_K"][q]) + 8 * ring.PI / k2 ** 2 * (
            1 + k2 / (4 * lam ** 2) + k2 ** 2 / (8 * lam ** 4)) * ring.func("exp", -k2 / (4 * lam ** 2)))


# -------------------------------------------------------------------- real code
def shear(gam, axis):
    O, E = np.zeros(3), np.zeros((3, 3))
    d = 1 if axis == "xy" else 2
    E[0, d] = E[d, 0] = gam / 2
    O[3 - d] = -gam / 2 if d == 1 else gam / 2
    return O, E


def random_case(ck, ps, rng, ns, nd, equal, sh, what, tag, shift=False, close=False):
    sizes = np.full(ns, .8) if equal else rng.uniform(.4, 1.2, ns)
    ds = np.full(nd, .3) if equal else rng.uniform(.1, .5, nd)
    box = rng.uniform(.85, 1.15, 3) * (4 + 2. * (ns + nd) ** (1 / 3))
    bl = rng.uniform(-2, 2, 3)
    sp = bl + rng.uniform(0, 1, (ns, 3)) * box
    dp = bl + rng.uniform(0, 1, (nd, 3)) * box
    if close and ns > 1:
        sp[1] = sp[0] + np.array([.5, .4, -.3]) * sizes[:2].sum()
    pd = common.posdata_np(sizes, sp, ds, dp, rng.normal(size=(nd, 3)) * .8)
    O = E = None
    if sh:
        O, E = shear(*sh)
    return per.compare(ck, ps, pd, bl, bl + box, float(rng.choice([1., .6, 2.3])), O, E, what, tag)


def concrete(ck, ps):
    rng = np.random.default_rng(ck.seed + 17)
    cases = [(1, 0, 0, None), (2, 0, 0, None), (0, 2, 0, (.3, "xz")), (2, 2, 0, (.45, "xz")), (1, 2, 1, None), (3, 0, 1, (1.7, "xy")), (2, 0, 0, (-.35, "xz"))]
    if not ck.quick:
        cases += [(2, 2, 0, (.2, "xy")), (0, 3, 0, None), (4, 1, 0, (2.6, "xz")), (3, 2, 1, (.1, "xy"))] * 2
    for k, (ns, nd, equal, sh) in enumerate(cases):
        if not random_case(ck, ps, rng, ns, nd, equal, sh, "random configuration", "random", close=k % 2 == 1):
            return
    # as shipped (images out to two boxes): only the truncation differs
    pd = common.posdata_np([1., .6], [[1., 1., 1.], [4., 3., 2.]], [.4], [[6., 5., 2.]], [[.9, .2, .4]])
    per.compare(ck, ps, pd, np.zeros(3), np.array([8., 8.5, 7.8]), 1.0, None, None, "as shipped", "shipped", far=0)


def run(ck):
    ps = spec_per.PerSpec()
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations; rounding is covered only by the real-code evaluations")
    ck.assume("numba's compiled code computes what the Python source says (decorators are removed for verification)")
    ck.assume("the setting bead_bead_interactions is True, as shipped (the documentation says it always should be)")
    ck.assume("which images and wave vectors are kept is a truncation choice; obligations on the lattice data are for the truncation sets of sample boxes with symbolic lengths and shear")
    ck.assume("the couplings are even (A, C, H, M) or odd (B, G) in the separation and symmetric and traceless in strain pairs (proved for the kernels in C16)")
    ck.assume("in the assembly the value of `erfcs` left over from an earlier pair is arbitrary; that it exists is observed on the real code only")
    tried = []

    def conc(name):
        if not tried:
            tried.append(name)
            rng = np.random.default_rng(ck.seed + 5)
            for ns, nd, eq, sh in ((2, 0, 0, None), (2, 1, 0, (.4, "xz"))):
                if not random_case(ck, ps, rng, ns, nd, eq, sh, "obligation %s" % name, "counterexample"):
                    return
    ck.guard("lattice sums", sums, ck, ps, conc)
    boxes = [((1., 1., 1.), 0., "xz"), ((1., 1.1, .95), .3, "xz"), ((1., 1.05, 1.), .4, "xy")]
    ck.guard("lattice data", lattice_data, ck, conc, boxes)
    ck.guard("assembly", assembly, ck, ps, conc)
    concrete(ck, ps)
