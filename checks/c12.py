"""C12: orientation markers turn rigidly about the particle's angular velocity."""
import numpy as np
from vc import ring, sym, common, facade, lazyarr
from vc.ring import SR, Unsupported
from vc.sym import SI
from vc.lazyarr import LArr, LoopCut, BodyEnd, ikey, canon

LEVEL = "proof"

CODE = '''
def f(a):
    import functions.timestepping as t
    R, S, R2 = a["R"].copy(), a["S"].copy(), a["R2"].copy()
    O, P = a["O"].copy(), a["P"].copy()
    e = t.euler_timestep_rotation(R, S, R2, np.zeros_like(S), O, a["dt"])
    b = t.ab2_timestep_rotation(R, S, R2, np.zeros_like(S), O, P, a["dt"])
    same = all(np.array_equal(x, a[k]) for x, k in ((R, "R"), (S, "S"), (R2, "R2"), (O, "O"), (P, "P")))
    return {"euler": np.array(e), "two-step": np.array(b), "inputs kept": bool(same)}
'''


def rodrigues(v, O, dt):
    w = np.sqrt(np.sum(O ** 2, axis=-1))
    k = O / np.where(w == 0, 1, w)[:, None]
    th = (w * dt)[:, None, None]
    k = k[:, None, :]
    return v * np.cos(th) + np.cross(k, v) * np.sin(th) + k * np.sum(k * v, axis=-1, keepdims=True) * (1 - np.cos(th))


def oracle(a):
    v = a["S"] - a["R"][:, None, :]
    A = 1.5 * a["O"] - 0.5 * a["P"]
    return {"euler": a["R2"][:, None, :] + rodrigues(v, a["O"], a["dt"]), "two-step": a["R2"][:, None, :] + rodrigues(v, A, a["dt"]), "inputs kept": True}


def check_real(ck, a, tag):
    sc = max(1.0, float(np.abs(a["R2"]).max()), float(np.abs(a["S"] - a["R"][:, None]).max()))
    return common.agree(ck, "orientation update (%s)" % tag, CODE, a, oracle(a), rtol=0, atol=1e-6 * sc, tag=tag,
                        fname="euler_timestep_rotation, ab2_timestep_rotation", sample=dict(spheres=len(a["R"]), class_=tag))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def near_x(n):
    return bool(facade.NPFacade.T["allclose"](np.array([abs(x) for x in n], dtype=object), np.array([SR.const(1), SR.const(0), SR.const(0)], dtype=object)))


def sphere(case, kinds):
    """(Omega, [marker vectors from the centre], unit axis, angular speed)."""
    if case == "still":
        return [SR.const(0)] * 3, [[ring.free("v%d%d" % (j, k)) for k in range(3)] for j in range(2)], None, SR.const(0)
    w = ring.free("w", pos=True)
    q = ring.free("q", pos=True, meta="unit")
    c = ring.alg("c", SR.const(1) - q * q)
    m = ring.alg("m1", SR.const(1) - ring.free("m0", meta="unit") * ring.free("m0"))
    m = [ring.free("m0"), m]
    n = [c, q * m[0], q * m[1]] if case == "general" else [q * m[0], q * m[1], c]
    if near_x(n) != (case == "near x"):
        raise sym.Infeasible()
    perp = [SR.const(1), SR.const(0), SR.const(0)] if case == "general" else [SR.const(0), SR.const(0), SR.const(1)]
    X = cross(n, perp)
    Y = cross(n, X)
    vs = []
    for j in range(2):
        r0 = ring.free("r%d" % j, pos=True)
        if kinds[j] == "along":
            vs.append([r0 * x for x in n])
        elif kinds[j] == "against":
            vs.append([-r0 * x for x in n])
        else:
            s = ring.free("s%d" % j, pos=True, meta="unit")
            ct = ring.alg("t%d" % j, SR.const(1) - s * s)
            # longitude in the turning frame; the two meridians where p vanishes are cases of their own
            if kinds[j] == "any":
                p = ring.free("p%d" % j, meta="unit")
                p2 = ring.alg("pp%d" % j, SR.const(1) - p * p)
                sym.assume(p != 0)
            else:
                p, p2 = SR.const(0), SR.const(1 if kinds[j] == "front" else -1)
            vs.append([r0 * (s * p * X[k] + s * p2 * Y[k] + ct * n[k]) for k in range(3)])
    return [w * x for x in n], vs, n, w


def turned(v, n, w, dt):
    if n is None:
        return v
    th = w * dt
    C, S = ring.cos(th), ring.sin(th)
    kv = sum((n[k] * v[k] for k in range(3)), SR.const(0))
    x = cross(n, v)
    return [v[k] * C + x[k] * S + n[k] * kv * (1 - C) for k in range(3)]


class Rows:
    def __init__(self):
        u = sym.CTX.user
        u["rep"] = {}
        facade.CREATED.clear()
        self.n = SI.var("n")
        sym.iassume(self.n.z() >= 0)

        def arr(name, tail):
            def get(o):
                rep = u["rep"].get((name, ikey(o[0])))
                if rep is not None:
                    for k in o[1:]:
                        rep = rep[k]
                    return rep
                return ring.free("%s[%s]" % (name, ",".join(map(ikey, o))), meta=("elt", name, o))
            return LArr((self.n,) + tail, get, name=name)
        self.arr = arr
        self.R, self.S, self.R2, self.O = arr("R", (3,)), arr("S", (2, 3)), arr("R2", (3,)), arr("O", (3,))
        self.out = LArr((self.n, 2, 3), lambda o: ring.free("old[%s]" % ",".join(map(ikey, o))), owned=True, name="out")


def rotation(ck, case, kinds):
    m = common.world_no_tables().load("functions.timestepping")
    dt = ring.free("dt", pos=True)
    tag = "%s %s/%s" % ((case,) + tuple(kinds))
    st = {}

    def harness():
        A = Rows()

        def enter(cut, binders, i):
            if len(cut.stack) > 1 or not isinstance(i, SI):
                raise Unsupported("loop shape")
            st["range"] = binders
            O, vs, n, w = sphere(case, kinds)
            c = [ring.free("c%d" % k) for k in range(3)]
            rep = sym.CTX.user["rep"]
            rep["O", ikey(i)] = O
            rep["R", ikey(i)] = c
            rep["R2", ikey(i)] = st["c2"] = [ring.free("d%d" % k) for k in range(3)]
            rep["S", ikey(i)] = [[c[k] + v[k] for k in range(3)] for v in vs]
            sym.CTX.user["row"] = (i, vs, n, w)

        def after(cut, binders, i):
            sym.CTX.user["after"] = binders
        facade.LOOP_HOOK[0] = LoopCut(enter, after, havoc=True)
        try:
            r = m.euler_timestep_rotation(A.R, A.S, A.R2, A.out, A.O, dt)
        except BodyEnd:
            return "body", A, None
        finally:
            facade.LOOP_HOOK[0] = None
        return "after", A, r
    bodies = 0
    for ctx, (kind, res) in sym.explore(harness, limit=400):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise res if isinstance(res, Unsupported) else Unsupported("exception on a path: %r" % (res,))
        what, A, r = res
        if what == "after":
            b = ctx.user.get("after")
            ok = b is not None and len(b) == 1 and isinstance(b[0][1], int) and b[0][1] == 0 and lazyarr._same(b[0][2], A.n)
            ck.record("%s: every sphere is visited" % tag, "proved" if ok else "undecided", "z3")
            ck.record("%s: result is the filled array" % tag, "proved" if r is A.out and not A.out.log else "undecided", "frame")
            continue
        bodies += 1
        i, vs, n, w = ctx.user["row"]
        # frame: only this sphere's row is written
        own = all(not isinstance(SI.lift(s[0]) - i, SI) and SI.lift(s[0]) - i == 0 and ln[0] == 1 for s, ln, v in A.out.log)
        ck.record("%s: only its own row is written" % tag, "proved" if own else "undecided", "frame")
        conc = lambda env, name: replay(ck, env, vs, n, w, tag)
        for j in range(2):
            want = turned(vs[j], n, w, dt)
            for k in range(3):
                ck.zero("%s: marker[%d,%d]" % (tag, j, k), A.out.get((i, j, k)) - st["c2"][k] - want[k], ctx, conc)
    if not bodies:
        raise Unsupported("vacuous")


def replay(ck, env, vs, n, w, tag):
    v = np.array([[common.fval(x, env) for x in y] for y in vs], float)
    O = np.array([common.fval(x, env) * common.fval(w, env) for x in n], float) if n else np.zeros(3)
    dt = common.fval(ring.free("dt", pos=True), env)
    R = np.array([[.3, -.2, .5]])
    check_real(ck, dict(R=R, S=R[:, None] + v[None], R2=R + .25, O=O[None], P=np.zeros((1, 3)), dt=dt), "counterexample " + tag)


def two_step(ck):
    """ab2_timestep_rotation calls the one-step update with the combined rate."""
    got = []
    w = common.world_no_tables()
    m = w.load("functions.timestepping")

    def stub(*a):
        got.append(a)
        return a[3]
    if "euler_timestep_rotation" not in m.__dict__:
        raise Unsupported("no euler_timestep_rotation")
    m.__dict__["euler_timestep_rotation"] = stub

    def harness():
        del got[:]
        A = Rows()
        P = A.arr("P", (3,))
        r = m.ab2_timestep_rotation(A.R, A.S, A.R2, A.out, A.O, P, ring.free("dt", pos=True))
        return A, P, r
    for ctx, (kind, res) in sym.explore(harness, limit=10):
        ck.paths += 1
        if kind != "ok":
            raise Unsupported("path %s %r" % (kind, res))
        A, P, r = res
        if len(got) != 1:
            raise Unsupported("the one-step update is called %d times" % len(got))
        a = got[0]
        ok = a[0] is A.R and a[1] is A.S and a[2] is A.R2 and a[3] is A.out and a[5] is ring.free("dt", pos=True) or \
            (a[0] is A.R and a[1] is A.S and a[2] is A.R2 and a[3] is A.out and (SR.lift(a[5]) - ring.free("dt", pos=True)).is_zero())
        ck.record("two-step: passes on centres, markers and step", "proved" if ok else "undecided", "frame")
        ck.record("two-step: result", "proved" if r is A.out else "undecided", "frame")
        i = SI.var("row")
        sym.iassume(i.z() >= 0)
        for k in range(3):
            h = SR.const(1) / 2
            ck.zero("two-step: combined rate[%d]" % k, a[4].get((i, k)) - (3 * h * A.O.get((i, k)) - h * P.get((i, k))), ctx)


def cases(rng):
    U = lambda *s: rng.uniform(-1, 1, s)
    ax = np.eye(3)
    for tag, O in (("aligned", np.concatenate([ax, -ax, 2.5 * ax])), ("still", np.zeros((3, 3))), ("general", U(6, 3)),
                   ("near x", np.array([[1, 1e-6, 0], [-2, 0, 3e-9], [1, 1e-9, 1e-9], [1, 1e-4, 1e-4], [-.5, 0, 1e-3]])),
                   ("mixed with still", np.array([[0, 0, 0], [.3, .2, .1], [0, 0, 0], [1, 0, 0], [0, 0, 0], [0, 0, 1.]])),
                   ("fast", 40 * U(4, 3)), ("slow", 1e-6 * U(4, 3))):
        n = len(O)
        R = 5 * U(n, 3)
        v = U(n, 2, 3)
        yield tag, dict(R=R, S=R[:, None] + v, R2=R + .1 * U(n, 3), O=O.astype(float), P=U(n, 3), dt=float(rng.uniform(.01, 1.5)))
    O = np.concatenate([ax, -ax])
    yield "parallel markers", dict(R=np.zeros((6, 3)), S=np.stack([2. * O, -.5 * O], 1), R2=U(6, 3), O=O, P=O.copy(), dt=.7)
    O = U(5, 3)
    yield "parallel markers, any axis", dict(R=np.zeros((5, 3)), S=np.stack([2. * O, -O], 1), R2=U(5, 3), O=O, P=-2 * O, dt=.7)
    O = U(4, 3)
    R = U(4, 3)
    yield "one and two-step cancel", dict(R=R, S=R[:, None] + U(4, 2, 3), R2=R.copy(), O=O, P=3 * O, dt=.3)
    yield "single", dict(R=R[:1], S=R[:1, None] + U(1, 2, 3) * 7, R2=R[:1].copy(), O=O[:1], P=O[1:2], dt=.5)
    yield "none", dict(R=np.zeros((0, 3)), S=np.zeros((0, 2, 3)), R2=np.zeros((0, 3)), O=np.zeros((0, 3)), P=np.zeros((0, 3)), dt=.5)


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("orientation markers do not coincide with the sphere centre")
    ck.assume("numba compilation preserves the meaning of the Python text (the repository disables it by default)")
    ck.under_contract("euler_timestep_rotation", "euler_timestep", "ab2_timestep_rotation")
    jobs = [("still", ("any", "any"))] + [(c, k) for c in ("general", "near x") for k in (("any", "any"), ("front", "back"), ("along", "against"))]
    for c, k in jobs:
        ck.guard("%s %s" % (c, k), rotation, ck, c, k)
    ck.guard("two-step", two_step, ck)
    # the simulation turns the markers from the old centre to the (wrapped) new one with the scheme's angular velocity
    from checks import c13
    ck.assume("frame obligations: contracts of the solver, the wrapping and the rotation update at their call sites (C10, C14, this check)")
    ck.under_contract("generate_frame (run_simulation.py, executed whole): its calls of the rotation update")
    for scheme in ("euler", "ab2", "rk4"):
        for periodic in (False, True):
            for first in (True, False):
                ck.guard("frame %s %s %s" % (scheme, periodic, first), c13.deductive, ck, scheme, True, False, periodic, first, 2 if scheme == "ab2" else 1, True)
    for j, tag in c13.jobs(np.random.default_rng(ck.seed + 112), ck.quick):
        if len(j["posdata"][0]) and not c13.check_real(ck, j, tag, rotations=True):
            break
    rng = np.random.default_rng(ck.seed + 12)
    for rep in range(1 if ck.quick else 10):
        for tag, a in cases(rng):
            if len(a["R"]) == 0:
                o = dict(oracle(a))
                o["euler"] = o["two-step"] = np.zeros((0, 2, 3))
                common.agree(ck, "orientation update (none)", CODE, a, o, tag=tag, fname="euler_timestep_rotation")
                continue
            check_real(ck, a, tag)
