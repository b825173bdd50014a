"""C18: shear inputs describe one consistent flow and its exact time integral."""
import numpy as np
from vc import ring, sym, common, facade, lazyarr
from vc.ring import SR, Unsupported
from vc.sym import SI

LEVEL = "proof"
MODULE = "setups.functions_inputs"

CODE = '''
def f(a):
    import setups.functions_inputs as t
    c = a["c"].copy()
    k = dict(centre_of_background_flow=c, num_spheres=a["n"])
    def at(frame):
        if a["kind"] == "constant":
            return t.constant_shear(a["A"], frame, a["dt"], **k)
        return t.oscillatory_shear(a["A"], a["T"], frame, a["dt"], phase=a["ph"], unused_axis=a["axis"], transpose_shear=a["tr"], opposite_direction=a["op"], **k)
    E, U, O, cc, Ot, Et = at(a["frame"])
    r = {"E": np.array(E, float), "U": np.array(U, float), "O": np.array(O, float), "c": np.array(cc, float), "Ot": np.array(Ot, float), "Et": np.array(Et, float)}
    z = at(0)
    r["Ot0"], r["Et0"] = np.array(z[4], float), np.array(z[5], float)
    return r
'''


def antisym(O):
    z = O[0] * 0
    return np.array([[z, -O[2], O[1]], [O[2], z, -O[0]], [-O[1], O[0], z]], dtype=object if isinstance(O[0], SR) else float)


def direction(kind, axis, tr, op):
    """(flow component, gradient component, sign) of the shear."""
    if kind == "constant" or axis == 1:
        return (2, 0, 1) if tr else (0, 2, 1)
    return (1, 0, -1 if op else 1) if tr else (0, 1, -1 if op else 1)


def oracle(a):
    i, j, s = direction(a["kind"], a["axis"], a["tr"], a["op"])
    t = a["frame"] * a["dt"]

    def parts(g):
        G = np.zeros((3, 3))
        G[i, j] = s * g
        E, W = (G + G.T) / 2, (G - G.T) / 2
        return E, np.array([W[2, 1], W[0, 2], W[1, 0]])
    if a["kind"] == "constant":
        rate, tot, tot0 = a["A"], a["A"] * t, 0.
    else:
        w = 2 * np.pi / a["T"]
        rate, tot, tot0 = a["A"] * w * np.cos(w * t + a["ph"]), a["A"] * np.sin(w * t + a["ph"]), a["A"] * np.sin(a["ph"])
    E, O = parts(rate)
    Et, Ot = parts(tot)
    E0, O0 = parts(tot0)
    return {"E": np.array([E] * max(1, a["n"])), "U": np.zeros(3), "O": O, "c": a["c"], "Ot": Ot, "Et": Et, "Ot0": O0, "Et0": E0}


def check_real(ck, a, tag):
    return common.agree(ck, "%s shear" % a["kind"], CODE, a, oracle(a), rtol=1e-9, atol=1e-12, tag=tag, fname="%s_shear" % a["kind"],
                        sample=dict(kind=a["kind"], axis=a["axis"], transposed=a["tr"], opposite=a["op"], class_=tag))


def deductive(ck, kind, axis, tr, op):
    m = common.world().load(MODULE)
    tag = "constant" if kind == "constant" else "oscillatory axis %d%s%s" % (axis, " transposed" if tr else "", " opposite" if op else "")
    st = {}

    def harness():
        n = SI.var("n")
        sym.iassume(n.z() >= 0)
        A, T, ph, dt, fr = ring.free("A"), ring.free("T", pos=True), ring.free("phase"), ring.free("dt", pos=True), ring.free("frame")
        c = common.sarr("c", 3)
        if kind == "constant":
            r = m.constant_shear(A, fr, dt, centre_of_background_flow=c, num_spheres=n)
        else:
            r = m.oscillatory_shear(A, T, fr, dt, phase=ph, centre_of_background_flow=c, num_spheres=n, unused_axis=axis, transpose_shear=tr,
                                    opposite_direction=op)
        Ea, U, O, cc, Ot, Et = r
        want = n if lazyarr.itrue(n >= 1) else 1
        if isinstance(Ea, lazyarr.SymList):
            p = Ea.pieces
            if len(p) != 1 or p[0][0] != "r" or len(p[0][1]) != 1 or len(p[0][2]) != 1:
                raise Unsupported("strain list")
            count = Ea._symlen()
            Es = [p[0][2][0]]
        else:
            count = len(Ea)
            Es = list(Ea)
        return Es, lazyarr._same(count, want), U, O, cc, c, Ot, Et
    seen = 0
    for ctx, (kd, res) in sym.explore(harness, limit=50):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        seen += 1
        Es, ok, U, O, cc, c, Ot, Et = res
        ck.record("%s: one strain rate per sphere, at least one" % tag, "proved" if ok else "undecided", "z3")
        i, j, s = direction(kind, axis, tr, op)
        L = SR.lift
        O = [L(x) for x in np.asarray(O, dtype=object)]
        Ot = [L(x) for x in np.asarray(Ot, dtype=object)]
        Et = np.asarray(facade.toarr(Et), dtype=object)
        A, T, ph, dt, fr = ring.free("A"), ring.free("T", pos=True), ring.free("phase"), ring.free("dt", pos=True), ring.free("frame")
        t = fr * dt
        if kind == "constant":
            rate, total = A, A * t
        else:
            w = 2 * ring.PI / T
            rate, total = A * w * ring.cos(t * w + ph), A * ring.sin(t * w + ph)

        def conc(env, name):
            g = lambda x: common.fval(x, env)
            check_real(ck, dict(kind=kind, axis=axis, tr=tr, op=op, A=g(A), T=g(T), ph=g(ph), dt=g(dt), frame=g(fr), n=2, c=np.array([.1, .2, .3])), "counterexample")
        W, Wt = antisym(O), antisym(Ot)
        for e, E in enumerate(Es):
            E = np.asarray(facade.toarr(E), dtype=object)
            for p in range(3):
                for q in range(3):
                    G = rate * s if (p, q) == (i, j) else SR.const(0)
                    ck.zero("%s: rotation plus strain is the shear gradient[%d,%d,%d]" % (tag, e, p, q), L(E[p, q]) + L(W[p, q]) - G, ctx, conc)
                    ck.zero("%s: strain rate is symmetric[%d,%d,%d]" % (tag, e, p, q), L(E[p, q]) - L(E[q, p]), ctx, conc)
                    ck.zero("%s: accumulated strain differentiates to the strain rate[%d,%d,%d]" % (tag, e, p, q),
                            L(Et[p, q]).diff(fr) / dt - L(E[p, q]), ctx, conc)
        for p in range(3):
            ck.zero("%s: accumulated rotation differentiates to the angular velocity[%d]" % (tag, p), Ot[p].diff(fr) / dt - O[p], ctx, conc)
            ck.zero("%s: no uniform flow[%d]" % (tag, p), L(U[p]), ctx, conc)
            ck.zero("%s: centre returned[%d]" % (tag, p), L(cc[p]) - c[p], ctx, conc)
            for q in range(3):
                G = total * s if (p, q) == (i, j) else SR.const(0)
                ck.zero("%s: accumulated rotation plus strain is the accumulated shear[%d,%d]" % (tag, p, q), L(Et[p, q]) + L(Wt[p, q]) - G, ctx, conc)
    if not seen:
        raise Unsupported("vacuous")


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations; the frame number is treated as a real variable")
    ck.under_contract("constant_shear", "oscillatory_shear")
    forms = [("constant", 1, False, False)] + [("oscillatory", x, t, o) for x in (1, 2) for t in (False, True) for o in (False, True)]
    for f in forms:
        ck.guard(str(f), deductive, ck, *f)
    rng = np.random.default_rng(ck.seed + 18)
    for rep in range(3 if ck.quick else 40):
        for kind, axis, tr, op in forms:
            ph = 0 if rep == 0 else float(rng.uniform(-3, 3))
            a = dict(kind=kind, axis=axis, tr=tr, op=op, A=float(rng.uniform(-3, 3)), T=float(rng.uniform(.1, 9)), ph=ph,
                     dt=float(rng.choice([.01, .1, 1.])), frame=0 if rep == 1 else int(rng.integers(0, 400)), n=int(rng.integers(0, 5)), c=rng.uniform(-2, 2, 3))
            check_real(ck, a, "random")
