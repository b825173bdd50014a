"""C02: the far-field mobility matrix holds every pair's coupling in its own place."""
import itertools
import numpy as np
from vc import ring, sym, facade, common, spec_far, real, pairloop
from vc.ring import SR, Unsupported
from vc.common import oarr, zarr, gid

MODULE = "functions.generate_Minfinity"


def sr_self(a, mu):
    z = SR.const(0)
    idm = lambda n, v: [[v if i == j else z for j in range(n)] for i in range(n)]
    zm = lambda n, k: [[z] * k for _ in range(n)]
    return dict(A=idm(3, 1 / (6 * ring.PI * mu * a)), B=zm(3, 3), G=zm(3, 5), C=idm(3, 1 / (8 * ring.PI * mu * a ** 3)),
                H=zm(3, 5), M=idm(5, 3 / (20 * ring.PI * mu * a ** 3)))


def assemble_sr(ns, nd, pair, beadbead=True):
    """Same layout as spec_far.assemble_np, exact."""
    st, n = spec_far.layout(ns, nd)
    out = facade.zeros((n, n))
    T = lambda m: [list(r) for r in zip(*m)]

    def put(r0, c0, blk):
        for i, row in enumerate(blk):
            for j, v in enumerate(row):
                out[r0 + i, c0 + j] = v

    def where(b):
        return ("S", b) if b < ns else (("4", b - ns) if b < ns + nd else ("5", b - ns - nd))
    nb = ns + 2 * nd
    for u in range(nb):
        for v in range(nb):
            (ku, iu), (kv, iv) = where(u), where(v)
            if ku != "S" and kv != "S" and not beadbead and u != v:
                continue
            b, bt = pair(u, v), pair(v, u)
            if ku == "S" and kv == "S":
                blk = {("U", "U"): b["A"], ("U", "W"): b["B"], ("U", "E"): b["G"], ("W", "W"): b["C"], ("W", "E"): b["H"],
                       ("E", "E"): b["M"], ("W", "U"): T(bt["B"]), ("E", "U"): T(bt["G"]), ("E", "W"): T(bt["H"])}
                for (kr, kc), m in blk.items():
                    put(st[kr, iu], st[kc, iv], m)
            elif ku == "S":
                for kr, m in (("U", b["A"]), ("W", T(bt["B"])), ("E", T(bt["G"]))):
                    put(st[kr, iu], st[kv, iv], m)
                    put(st[kv, iv], st[kr, iu], T(m))
            elif kv != "S":
                put(st[ku, iu], st[kv, iv], b["A"])
    if nd:
        o, k = 11 * ns, 3 * nd
        h = SR.const(1) / 2
        top, bot = out[o:o + k].copy(), out[o + k:].copy()
        out[o:o + k], out[o + k:] = (top + bot) * h, (bot - top) * h
        l, r = out[:, o:o + k].copy(), out[:, o + k:].copy()
        out[:, o:o + k], out[:, o + k:] = (l + r) * h, (r - l) * h
    return out


def real_compare(ck, spec, pd, mu, bb, what, tag, rtol=1e-7):
    ns, nd = len(pd[0]), len(pd[3])
    inp = dict(posdata=pd, mu=float(mu), beadbead=bb)
    pos = np.concatenate([pd[1], pd[4] - .5 * pd[5], pd[4] + .5 * pd[5]])
    a = np.concatenate([pd[0], pd[3], pd[3]])
    exp = spec_far.assemble_np(ns, nd, lambda u, v: spec.num_pair(pos[u], pos[v], a[u], a[v], mu, u == v), bb)
    try:
        ans = ck.real.call(common.MINF, inp)
    except real.RealError as e:
        ck.violation("generate_Minfinity raised %s" % e, dict(function="generate_Minfinity", input=inp, error=str(e)))
        return False
    got = ans["m"]
    ck.evaluated((tag, ns, nd, bb, tuple(np.round(pos.ravel(), 9))), dict(spheres=ns, dumbbells=nd, beadbead=bb, class_=tag))
    if not ans["unchanged"]:
        ck.violation("generate_Minfinity modified the configuration it was given", dict(function="generate_Minfinity", input=inp))
        return False
    if got.shape != exp.shape:
        ck.violation("matrix has shape %s, expected %s" % (got.shape, exp.shape), dict(function="generate_Minfinity", input=inp))
        return False
    bad = common.blockwise_close(got, exp, common.blocks_of(ns, nd), rtol)
    if bad:
        r0, r1, c0, c1, err, sc = bad[0]
        ck.violation("far-field matrix block is not the coupling of its own pair (%s)" % what,
                     dict(function="generate_Minfinity", input=inp, rows=[r0, r1], cols=[c0, c1], expected=exp[r0:r1, c0:c1],
                          got=got[r0:r1, c0:c1], max_error=err))
        return False
    return True


def unbounded(ck, spec, bb):
    """Any number of spheres and dumbbells: an arbitrary iteration of the pair
    loop, and the state after the loop."""
    m = common.world().load(MODULE)
    if not bb:
        if "bead_bead_interactions" not in m.__dict__:
            raise Unsupported("no bead_bead_interactions in module")
        m.bead_bead_interactions = False
    mu = ring.free("mu", pos=True)
    lim = ring.literal("2.001")

    def near(r, s, a1, a2):
        # 2s/(a1+a2) < 2.001: the separation is replaced by the clamp value
        if 2 * s / (a1 + a2) < lim:
            so = lim * (a1 + a2) / 2
            return [x * so / s for x in r], so
        return r, s
    memo = {}

    def pairfn(same, r, s, a1, a2):
        if same:
            b = sr_self(a1, mu)
            return b, b
        key = tuple(tuple(sorted(x.t.items())) for x in r + [s, a1, a2])
        if key not in memo:
            memo[key] = spec.at(r, s, a1, a2, mu), spec.at([-x for x in r], s, a2, a1, mu)
        return memo[key]

    def draw(G, rng):
        return {"s": rng.uniform(.3, 5), "h": rng.uniform(.5, 1.5), "d": rng.uniform(-.4, .4)}.get(
            G.name, rng.uniform(-.7, .7) if G.name[0] == "n" else None)
    ck.draw = draw

    tried = {}

    def conc(n, ctx, name):
        """Replay a failed obligation on configurations with the counts of its path."""
        if n is None or tried.get(n, 0) >= 2:
            return
        tried[n] = tried.get(n, 0) + 1
        rng = np.random.default_rng(ck.seed)
        for equal in (False, True):
            for L in (8., 1.5):
                if not real_compare(ck, spec, random_config(rng, n[0], n[1], equal, L), 1.3, bb, "obligation %s" % name, "counterexample"):
                    return
    return pairloop.prove(ck, lambda: None, lambda B: m.generate_Minfinity(B.posdata(), 0, 0, mu)[0], pairfn, bb, near,
                          tag="" if bb else "no bead-bead: ", deadline=ck.t0 + (280 if ck.quick else 400), conc=conc)


def random_config(rng, ns, nd, equal, L):
    sizes = np.full(ns, .7) if equal else rng.uniform(.4, 1.6, ns)
    ds = np.full(nd, .3) if equal else rng.uniform(.1, .5, nd)
    return common.posdata_np(sizes, rng.uniform(-L, L, (ns, 3)), ds, rng.uniform(-L, L, (nd, 3)), rng.normal(size=(nd, 3)) * 1.3)


def concrete(ck, spec):
    rng = np.random.default_rng(ck.seed + 7)
    cases = [(0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (3, 0), (0, 3), (3, 2), (4, 3), (2, 0), (11, 4), (2, 9)]
    if not ck.quick:
        cases += [(6, 4), (5, 5), (8, 1), (1, 7)] * 4
    for k, (ns, nd) in enumerate(cases):
        for bb in (True, False):
            n = ns + 2 * nd
            sizes = rng.uniform(.4, 1.6, ns) if k % 2 else rng.choice([.5, 1.0], ns)
            ds = rng.uniform(.1, .5, nd) if k % 2 == 0 else rng.choice([.25, .5], nd)
            sp = rng.uniform(-6, 6, (ns, 3))
            dp = rng.uniform(-6, 6, (nd, 3))
            dx = rng.normal(size=(nd, 3)) * 1.3
            if not real_compare(ck, spec, common.posdata_np(sizes, sp, ds, dp, dx), [1.0, .6, 2.3][k % 3], bb, "random configuration", "random"):
                return


def run(ck):
    spec = spec_far.FarSpec()
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations; rounding is covered only by the real-code evaluations")
    ck.assume("numba's compiled code computes what the Python source says (decorators are removed for verification)")
    ck.assume("scipy.sparse.coo_matrix sums duplicate entries and `*` is the matrix product (facade contract)")
    ck.under_contract("generate_Minfinity", "generate_Minfinity_loop", "submatrix_coords_tuple", "posdata_data", "is_sphere",
                      "is_dumbbell_bead_1", "is_dumbbell_bead_2")
    for bb in (True, False):
        ck.guard("assembly, bead-bead %s" % bb, unbounded, ck, spec, bb)
    concrete(ck, spec)
