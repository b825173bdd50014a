"""C19: repulsive forces are equal and opposite, along the line of centres, short-ranged."""
import numpy as np
from vc import ring, sym, common, facade, lazyarr, pairsum, rowmap
from vc.ring import SR, Unsupported
from vc.sym import SI
from vc.common import fval
from checks import c07

LEVEL = "proof"
CASES = [(1, 0, 0), (2, 0, 0), (0, 1, 0), (2, 0, 1), (1, 1, 0), (3, 0, 0), (3, 0, 1)]
MODULE = "setups.functions_inputs"

CODE = '''
def f(a):
    import setups.functions_inputs as t
    L = lambda x: [list(r) for r in x]
    before = [a[k].copy() for k in ("xs", "xd", "dx", "ss", "sd")]
    args = [a[k].copy() for k in ("xs", "xd", "dx", "ss", "sd")]
    Fa, Fb, DFb = t.repulsion_forces(a["strength"], a["tau"], len(a["xs"]), len(a["xd"]), args[0], args[1], args[2], args[3], args[4], a["lid"],
                                     L(a["Fa"]), L(a["Fb"]), L(a["DFb"]))
    A = lambda x: np.array([np.array(r, float) for r in x], float).reshape(len(x), 3)
    return {"Fa": A(Fa), "Fb": A(Fb), "DFb": A(DFb), "kept": all(bool(np.array_equal(x, y)) for x, y in zip(args, before))}
'''


def beads(a):
    x = np.concatenate([a["xs"], a["xd"] - a["dx"] / 2, a["xd"] + a["dx"] / 2])
    return x, np.concatenate([a["ss"], a["sd"], a["sd"]])


def oracle(a):
    x, s = beads(a)
    ns, nd = len(a["xs"]), len(a["xd"])
    F = np.zeros((len(x), 3))
    for i in range(len(x)):
        for j in range(len(x)):
            if i == j:
                continue
            d = x[i] - x[j]
            r = np.sqrt(d @ d)
            sc = 2 * r / (s[i] + s[j])
            if 0 < sc < 2.2:
                mag = a["strength"] * 2 * s[i] * s[j] / (s[i] + s[j])
                if sc > 2:
                    mag *= np.exp(-a["tau"] * (sc - 2))
                F[i] += mag * d / r
    Fa = a["Fa"].copy()
    Fa[2 * a["lid"]:] += F[2 * a["lid"]:ns]
    return {"Fa": Fa, "Fb": a["Fb"] + F[ns:ns + nd] + F[ns + nd:], "DFb": a["DFb"] + F[ns + nd:] - F[ns:ns + nd], "kept": True}


def marginal(a):
    """A scaled distance too near the cutoff or contact for the float result to be determined."""
    x, s = beads(a)
    for i in range(len(x)):
        for j in range(i):
            sc = 2 * np.linalg.norm(x[i] - x[j]) / (s[i] + s[j])
            if abs(sc - 2.2) < 1e-9 or 0 < sc < 1e-9:
                return True
    return False


def check_real(ck, a, tag):
    if marginal(a):
        return True
    return common.agree(ck, "repulsion", CODE, a, oracle(a), rtol=1e-9, atol=1e-11, tag=tag, fname="repulsion_forces",
                        sample=dict(spheres=len(a["xs"]), dumbbells=len(a["xd"]), lid=a["lid"], class_=tag))


def example(rng, ns, nd, lid, spread):
    sizes = rng.choice([1., .5, 2., .1], ns + nd)
    if rng.random() < .4:
        sizes[:] = 1.
    n = ns + nd
    x = rng.uniform(-1, 1, (n, 3)) * spread * max(1, n) ** (1 / 3.)
    dx = rng.normal(size=(nd, 3))
    dx *= (rng.uniform(.5, 3, nd) / np.linalg.norm(dx, axis=1))[:, None]
    U = lambda k: rng.uniform(-2, 2, (k, 3))
    return dict(xs=x[:ns], xd=x[ns:], dx=dx, ss=sizes[:ns], sd=sizes[ns:], lid=lid, strength=float(rng.uniform(.1, 30)), tau=float(rng.uniform(.5, 20)),
                Fa=U(ns), Fb=U(nd), DFb=U(nd))


def touching(rng):
    """Three spheres and a dumbbell with every kind of gap."""
    for gap in (-.5, -.01, .0, .05, .19, .21, .5):
        a = example(rng, 3, 1, 0, 1.)
        a["ss"], a["sd"] = np.array([1., .5, 1.]), np.array([.25])
        n = rng.normal(size=3)
        n /= np.linalg.norm(n)
        s = 2 + gap
        a["xs"] = np.array([[0, 0, 0], n * s * .75, -n * s])
        a["xd"] = np.array([[0, 0, 0]]) + n * (s * .75 + .375 * s + .3)
        a["dx"] = .6 * n[None, :]
        if gap == 0.:
            a["xs"] = np.array([[0, 0, 0], [0, 0, 1.5], [0, -2., 0]])
        yield a


def search(ck, ns, nd, lid):
    rng = np.random.default_rng(3)
    for q in range(40):
        if not check_real(ck, example(rng, ns, nd, lid, [.8, 1.1, 1.5][q % 3]), "counterexample"):
            return


def replay_pair(ck, env, b1, b2, S, tau):
    """Two beads as in the counterexample; other beads of their dumbbells out of the way."""
    far = 1e4
    spheres, dumbs = [], []
    for x, a, kind in (b1, b2):
        x, a = np.array([fval(v, env) for v in x]), fval(a, env)
        if kind == "sphere":
            spheres.append((x, a))
        else:
            d = np.array([0., 0., far])
            dumbs.append((x + d / 2 if kind == "first bead" else x - d / 2, d, a))
            far *= -1
    V = lambda k: np.array(k, float).reshape(-1, 3)
    R = lambda k: np.array(k, float).reshape(-1)
    sets = [(spheres, dumbs)]
    if len(dumbs) == 2:
        x1, x2 = (np.array([fval(v, env) for v in b[0]]) for b in (b1, b2))
        if dumbs[0][2] == dumbs[1][2]:
            sets.append(([], [((x1 + x2) / 2, x2 - x1, dumbs[0][2])]))
    for s, d in sets:
        z = lambda k: np.full((len(k), 3), .25)
        if not check_real(ck, dict(xs=V([u[0] for u in s]), xd=V([u[0] for u in d]), dx=V([u[1] for u in d]), ss=R([u[1] for u in s]), sd=R([u[2] for u in d]), lid=0,
                                   strength=fval(S, env), tau=fval(tau, env), Fa=z(s), Fb=z(d), DFb=z(d)), "counterexample"):
            return False
    return True


def deductive(ck, ns, nd, lid):
    S, tau = ring.free("strength"), ring.free("tau", pos=True)
    m = common.world().load(MODULE)
    tag = "%d spheres %d dumbbells lid %d" % (ns, nd, lid)

    def harness():
        P = lambda nm, k: np.array([ring.free("%s%d" % (nm, i), pos=True) for i in range(k)], dtype=object)
        xs, xd, dx = common.sarr("x", ns, 3), common.sarr("y", nd, 3), common.sarr("d", nd, 3)
        ss, sd = P("a", ns), P("b", nd)
        Fa, Fb, DFb = common.sarr("Fa", ns, 3), common.sarr("Fb", nd, 3), common.sarr("DFb", nd, 3)
        L = lambda v: [list(r) for r in v]
        r = m.repulsion_forces(S, tau, ns, nd, xs, xd, dx, ss, sd, lid, L(Fa), L(Fb), L(DFb))
        # the statement
        half = SR.const(1) / 2
        B = [xs[i] for i in range(ns)] + [np.array([xd[i][k] - dx[i][k] * half for k in range(3)], dtype=object) for i in range(nd)] + \
            [np.array([xd[i][k] + dx[i][k] * half for k in range(3)], dtype=object) for i in range(nd)]
        size = list(ss) + list(sd) + list(sd)
        F = [[SR.const(0)] * 3 for _ in B]
        for i in range(len(B)):
            for j in range(i + 1, len(B)):
                # same sign convention as a displacement from the earlier to the later bead
                v = [B[j][k] - B[i][k] for k in range(3)]
                dist = ring.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
                s = dist / ((size[i] + size[j]) * half)
                if s > 0 and s < SR.const(11) / 5:
                    mag = S * 2 * size[i] * size[j] / (size[i] + size[j])
                    if s - 2 >= 0:
                        mag = mag * ring.func("exp", -tau * (s - 2))
                    for k in range(3):
                        F[i][k] = F[i][k] - mag * v[k] / dist
                        F[j][k] = F[j][k] + mag * v[k] / dist
        out = []
        A = lambda x, i, k: SR.lift(np.asarray(facade.toarr(x[i]), dtype=object)[k])
        for k in range(3):
            for i in range(ns):
                out.append(("sphere force[%d,%d]" % (i, k), A(r[0], i, k) - Fa[i][k] - (F[i][k] if i >= 2 * lid else 0)))
            for i in range(nd):
                f1, f2 = F[ns + i][k], F[ns + nd + i][k]
                out.append(("dumbbell force[%d,%d]" % (i, k), A(r[1], i, k) - Fb[i][k] - f1 - f2))
                out.append(("dumbbell difference force[%d,%d]" % (i, k), A(r[2], i, k) - DFb[i][k] - f2 + f1))
        return out, len(r[0]) == ns and len(r[1]) == nd and len(r[2]) == nd, dict(xs=xs, xd=xd, dx=dx, ss=ss, sd=sd, Fa=Fa, Fb=Fb, DFb=DFb)
    seen = 0
    for ctx, (kd, res) in sym.explore(harness, limit=3000, deadline=ck.deadline):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        seen += 1

        def conc(env, name, inp=res[2]):
            V = lambda x: common.npval(x, env) if np.size(x) else np.zeros(np.shape(x))
            if not check_real(ck, dict({k: V(x) for k, x in inp.items()}, lid=lid, strength=fval(S, env), tau=fval(tau, env)), "counterexample"):
                return
            search(ck, ns, nd, lid)
        for name, d in res[0]:
            ck.zero(tag + ": " + name, d, ctx, conc, scope="bounded")
        ck.record(tag + ": one force each", "proved" if res[1] else "refuted", "ring", scope="bounded")
    if not seen:
        raise Unsupported("vacuous")


def unbounded(ck, kind):
    """Any numbers of spheres and dumbbells; an arbitrary pair of beads, and an arbitrary particle of the kind."""
    m = common.world().load(MODULE)
    half = SR.const(1) / 2
    st = {}

    def bead(u, j):
        """Position, radius and kind of bead j."""
        ns, nd, xs, xd, dx, ss, sd = u
        if lazyarr.itrue(j < ns):
            return [xs.get((j, c)) for c in range(3)], ss.get((j,)), "sphere"
        for name, sg in (("first bead", -1), ("second bead", 1)):
            h = lazyarr.canon(j - ns if sg < 0 else j - ns - nd)
            if sg > 0 or lazyarr.itrue(h < nd):
                return [xd.get((h, c)) + dx.get((h, c)) * half * sg for c in range(3)], sd.get((h,)), name

    def on_step(p, q, k, added):
        u = st["u"]
        out, tag = [], "one bead"
        if q is not p:
            sym.CTX.user["beads"] = b = bead(u, p), bead(u, q)
            (x1, a1, n1), (x2, a2, n2) = b
            tag = "%s, %s" % (n1, n2)
            v = [x2[c] - x1[c] for c in range(3)]
            dist = ring.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
            s = dist / ((a1 + a2) * half)
            f = [SR.const(0)] * 3
            near = "apart"
            if s > 0 and s < SR.const(11) / 5:
                near = "touching"
                mag = st["S"] * 2 * a1 * a2 / (a1 + a2)
                if s - 2 >= 0:
                    near = "close"
                    mag = mag * ring.func("exp", -st["tau"] * (s - 2))
                f = [mag * v[c] / dist for c in range(3)]
            tag += ", " + near
            for c in range(3):
                # the sum is taken away from the forces (below)
                out.append(("added to the first[%d]" % c, added[0][c] - f[c]))
                out.append(("added to the second[%d]" % c, added[1][c] + f[c]))
                out.append(("added to another[%d]" % c, added[2][c]))
        else:
            for c in range(3):
                out.append(("added to itself[%d]" % c, added[0][c]))
                out.append(("added to another[%d]" % c, added[1][c]))
        sym.CTX.user["out"] = [("%s: %s" % (tag, n), d) for n, d in out]
    rule = pairsum.PairSum(on_step)

    def harness():
        facade.CREATED.clear()
        ns, nd, lid, i = SI.var("ns"), SI.var("nd"), SI.var("lid"), SI.var("i")
        for n in (ns, nd, lid):
            sym.iassume(n.z() >= 0)
        sym.iassume(lid.z() * 2 <= ns.z())
        sym.iassume(i.z() >= 0)
        sym.iassume(i.z() < (ns if kind == "sphere" else nd).z())
        A = rowmap.array
        st["S"], st["tau"] = ring.free("strength"), ring.free("tau", pos=True)
        xs, xd, dx, ss, sd = A("x", (ns, 3)), A("y", (nd, 3)), A("d", (nd, 3)), A("a", (ns,), True), A("b", (nd,), True)
        Fa, Fb, DFb = A("Fa", (ns, 3)), A("Fb", (nd, 3)), A("DFb", (nd, 3))
        st["u"] = (ns, nd, xs, xd, dx, ss, sd)
        L = lazyarr.tolist
        facade.LOOP_HOOK[0] = rule
        u = sym.CTX.user
        try:
            r = m.repulsion_forces(st["S"], st["tau"], ns, nd, xs, xd, dx, ss, sd, lid, L(Fa), L(Fb), L(DFb))
            if "sum" not in u:
                raise Unsupported("the loop over close pairs was not met")
            G = u["sum"]
            out = [("the sum starts from zero[%d]" % c, SR.lift(v)) for c, v in enumerate(u["start"])]
            if kind == "sphere":
                got = c07.aslazy(r[0], ns, 3)
                free = lazyarr.itrue(i >= lid * 2)
                for c in range(3):
                    out.append(("%s sphere[%d]" % ("free" if free else "lid", c), got.get((i, c)) - Fa.get((i, c)) + (G.get((i, c)) if free else 0)))
            else:
                got, dif = c07.aslazy(r[1], nd, 3), c07.aslazy(r[2], nd, 3)
                for c in range(3):
                    g1, g2 = G.get((lazyarr.canon(ns + i), c)), G.get((lazyarr.canon(ns + nd + i), c))
                    out.append(("dumbbell force[%d]" % c, got.get((i, c)) - Fb.get((i, c)) + g1 + g2))
                    out.append(("dumbbell difference force[%d]" % c, dif.get((i, c)) - DFb.get((i, c)) + g2 - g1))
            return out
        except lazyarr.BodyEnd:
            return u["out"]
        finally:
            facade.LOOP_HOOK[0] = None

    def conc(env, name):
        if pair is None or replay_pair(ck, env, *pair, st["S"], st["tau"]):
            search(ck, 3, 2, 0)
            search(ck, 3, 2, 1)
    for ctx, (kd, res) in sym.explore(harness, limit=400, deadline=ck.deadline):
        if kd == "raise" and isinstance(res, pairsum.Discovered):
            break
    seen = set()
    for ctx, (kd, res) in sym.explore(harness, limit=2000, deadline=ck.deadline):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        pair = ctx.user.get("beads")
        for name, d in res:
            seen.add(name)
            ck.zero("%s: %s" % (kind, name), d, ctx, conc)
    if not any("starts from zero" in n for n in seen) or not any(", close" in n for n in seen):
        raise Unsupported("vacuous")


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("forces come in as lists of rows, as empty_vectors makes them")
    ck.under_contract("repulsion_forces")
    ck.assume("numpy.where lists each selected index pair once")
    if all([ck.guard("any number of particles, %s" % k, unbounded, ck, k) for k in ("sphere", "dumbbell")]):
        cases = []
    else:
        cases = CASES
        ck.bounds.append("(spheres, dumbbells, lid): %s; positions, radii, strength, range and forces arbitrary" % (cases,))
    for c in cases:
        ck.guard("%s" % (c,), deductive, ck, *c)
    rng = np.random.default_rng(ck.seed + 19)
    for a in touching(rng):
        check_real(ck, a, "every kind of gap")
    for q in range(30 if ck.quick else 300):
        ns, nd = int(rng.integers(0, 7)), int(rng.integers(0, 5))
        lid = int(rng.integers(0, ns // 2 + 1))
        if not check_real(ck, example(rng, ns, nd, lid, float(rng.choice([.6, 1., 1.4]))), "random"):
            break
