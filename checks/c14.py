"""C14: periodic wrapping moves particles only by whole box vectors, into the box."""
import numpy as np
from vc import ring, sym, common, facade, rowmap
from vc.ring import SR, GENS, Unsupported
from vc.sym import SI

LEVEL = "proof"

CODE = '''
def f(a):
    import functions.timestepping as t
    x = a["x"].copy()
    if a["plain"]:
        y = t.wrap_around(x, a["lo"], a["hi"])
    else:
        y = t.wrap_around(x, a["lo"], a["hi"], a["Ot"], a["Et"])
    return {"y": np.array(y), "kept": bool(np.array_equal(x, a["x"]))}
'''


def flow(gamma, i, j):
    """Accumulated rotation and strain of the simple shear moving x_i by gamma*x_j."""
    G = np.zeros((3, 3), dtype=object if isinstance(gamma, SR) else float)
    if isinstance(gamma, SR):
        G = common.zarr(3, 3)
    G[i, j] = G[i, j] + gamma
    half = SR.const(1) / 2 if isinstance(gamma, SR) else .5
    E = (G + G.T) * half
    W = (G - G.T) * half
    O = [W[2, 1], W[0, 2], W[1, 0]]
    return (common.oarr(O) if isinstance(gamma, SR) else np.array(O, float)), E


def lattice(L, gamma, i, j):
    B = np.diag(L).astype(float)
    if gamma:
        B[j, i] += np.mod(gamma * L[j], L[i])
    return B


def check_real(ck, a, gamma, i, j, tag):
    """Independent of the code's route: solve for the box coordinates."""
    from vc import real
    rep = dict(function="wrap_around", input=a, shear=dict(amount=gamma, along=i, gradient=j))
    try:
        g = ck.real.call(CODE, a)
    except real.RealError as e:
        ck.violation("wrapping raised %s" % str(e)[:200], dict(rep, error=str(e)))
        return False
    ck.evaluated((tag, gamma, i, j, len(a["x"])), dict(shear=gamma, along=i, gradient=j, positions=len(a["x"]), class_=tag))
    L = a["hi"] - a["lo"]
    B = lattice(L, gamma, i, j)
    y = np.asarray(g["y"], float)
    if y.shape != a["x"].shape:
        ck.violation("wrapped positions have the wrong shape", dict(rep, got=y.shape))
        return False
    if not len(y):
        return True
    c = np.linalg.solve(B.T, (y - a["x"]).T).T
    fr = np.linalg.solve(B.T, y.T).T
    sc = 1 + np.abs(np.linalg.solve(B.T, a["x"].T)).max()
    tol = 1e-10 * sc
    if not np.abs(c - np.round(c)).max() <= tol:
        ck.violation("wrapping moved a position by something else than whole box vectors", dict(rep, got=y, coefficients=c))
        return False
    if fr.min() < -.5 - tol or fr.max() > .5 + tol:
        ck.violation("wrapped position is outside the box", dict(rep, got=y, coordinates=fr))
        return False
    f0 = np.linalg.solve(B.T, a["x"].T).T
    ins = np.all(np.abs(f0) < .5 - tol, axis=1)
    if np.abs(y - a["x"])[ins].size and np.abs(y - a["x"])[ins].max() > tol * L.max():
        ck.violation("a position already inside the box was moved", dict(rep, got=y))
        return False
    if not g["kept"]:
        ck.violation("wrapping modified the positions it was given", rep)
        return False
    return True


def deductive(ck, shear):
    m = common.world_no_tables().load("functions.timestepping")
    tag = "unsheared" if shear is None else "shear of x%d along x%d" % (shear[1], shear[0])

    def harness():
        facade.CREATED.clear()
        n = SI.var("n")
        sym.iassume(n.z() >= 1)
        r = SI.var("r")
        sym.iassume(r.z() >= 0)
        sym.iassume(r.z() < n.z())
        L = [ring.free("L%d" % k, pos=True) for k in range(3)]
        lo = common.sarr("lo", 3)
        hi = common.oarr([lo[k] + L[k] for k in range(3)])
        X = rowmap.array("x", (n, 3))
        B = [[L[k] if k == l else SR.const(0) for l in range(3)] for k in range(3)]
        if shear is None:
            y = m.wrap_around(X, lo, hi)
        else:
            g = ring.free("gamma")
            i, j = shear
            O, E = flow(g, i, j)
            y = m.wrap_around(X, lo, hi, O, E)
            # the sheared box vector, up to whole box vectors along the shear
            B[j][i] = g * L[j] - sym.floor(g * L[j] / L[i]) * L[i]
        # box coordinates of the position, by substitution in the triangular system
        x = [rowmap.elt("x", (r, k)) for k in range(3)]
        order = sorted(range(3), key=lambda k: sum(1 for l in range(3) if l != k and B[l][k].t))
        c = [None] * 3
        for k in order:
            t = x[k]
            for l in range(3):
                if l != k and B[l][k].t:
                    t = t - c[l] * B[l][k]
            c[k] = t / L[k]
        out = []
        whole = [sym.floor(c[k] + SR.const(1) / 2) for k in range(3)]
        for k in range(3):
            want = x[k]
            for l in range(3):
                want = want - whole[l] * B[l][k]
            out.append(("%s: moved by whole box vectors into the box[%d]" % (tag, k), y.get((r, k)) - want))
        from vc.lazyarr import _same
        return out, len(y.shape) == 2 and _same(y.shape[0], n) and y.shape[1] == 3
    seen = 0
    for ctx, (kind, res) in sym.explore(harness, limit=50):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        seen += 1

        def conc(env, name):
            rng = np.random.default_rng(1)
            for a, g, i, j, t in cases(rng, 4):
                check_real(ck, a, g, i, j, "counterexample " + t)
        for name, d in res[0]:
            ck.zero(name, d, ctx, conc)
        ck.record("%s: shape" % tag, "proved" if res[1] else "undecided", "z3")
    if not seen:
        raise Unsupported("vacuous")


def cases(rng, n):
    dirs = [(i, j) for i in range(3) for j in range(3) if i != j]
    for q in range(n):
        L = rng.uniform(1, 20, 3)
        lo = -L / 2 if q % 2 else rng.uniform(-10, 10, 3)
        x = rng.uniform(-3, 3, (int(rng.integers(1, 9)), 3)) * L
        if q % 3 == 0:
            x = rng.uniform(-.45, .45, x.shape) * L
        yield dict(x=x, lo=lo, hi=lo + L, Ot=np.zeros(3), Et=np.zeros((3, 3)), plain=True), 0., 0, 1, "unsheared"
        for i, j in dirs:
            for g in (float(rng.uniform(0, 1)), float(rng.uniform(-3, 3)), 0.):
                O, E = flow(g, i, j)
                yield dict(x=x, lo=lo, hi=lo + L, Ot=O, Et=E, plain=False), g, i, j, "sheared"
    L = np.array([10., 8., 12.])
    lo = -L / 2
    x = np.array([[0, 0, 0], [4.999, 3.999, 5.999], [-4.999, -3.999, -5.999], [-5, -4, -6], [5.5, 0, 0], [0, 4.5, 0], [0, 0, -6.5], [25, -20, 30.]])
    for g, i, j in ((0., 0, 1), (.3, 0, 2), (1.25, 0, 1)):
        O, E = flow(g, i, j)
        yield dict(x=x, lo=lo, hi=lo + L, Ot=O, Et=E, plain=False), g, i, j, "edges"


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations; numpy.mod(x, m) = x - m floor(x/m)")
    ck.assume("the accumulated shear is a simple shear between two coordinate directions, as the shear inputs produce")
    ck.under_contract("wrap_around", "shear_basis_vectors")
    dirs = [(i, j) for i in range(3) for j in range(3) if i != j]
    for s in [None] + dirs:
        ck.guard("shear %s" % (s,), deductive, ck, s)
    rng = np.random.default_rng(ck.seed + 14)
    for a, g, i, j, t in cases(rng, 4 if ck.quick else 40):
        if not check_real(ck, a, g, i, j, t):
            break
