"""The real periodic far-field mobility against the independent Ewald sum (spec_per)."""
import math
import numpy as np
from . import common, real, spec_far

CODE = '''
def f(a):
    import settings
    import functions.generate_Minfinity_periodic as g
    old = {}
    for mod in (settings, g):
        if hasattr(mod, "how_far_to_reproduce_gridpoints"):
            old[mod] = mod.how_far_to_reproduce_gridpoints
            if a["far"]:
                mod.how_far_to_reproduce_gridpoints = a["far"]
    pd = a["posdata"]
    keep = [x.copy() for x in pd]
    try:
        m = g.generate_Minfinity_periodic(pd, a["bl"], a["tr"], mu=a["mu"], Ot_infinity=a["O"], Et_infinity=a["E"])[0]
    finally:
        for mod, v in old.items():
            mod.how_far_to_reproduce_gridpoints = v
    m = m.toarray() if hasattr(m, "toarray") else m
    return {"m": np.asarray(m, dtype=float), "far": bool(old), "unchanged": all(np.array_equal(x, y) for x, y in zip(keep, pd))}
'''


def basis(box, O=None, E=None):
    """Lattice of the sheared box: each edge carried along by the accumulated flow."""
    b = np.diag(np.asarray(box, float))
    if O is not None:
        b = b + np.cross(O, b) + b @ np.asarray(E, float).T
    return b


def clamp(r, a1, a2):
    s = math.sqrt(float(r @ r))
    lim = 2.001 * (a1 + a2) / 2
    return r * (lim / s) if 1e-8 < s < lim else r


def expected(ps, pd, box, mu, O=None, E=None, eps=1e-13):
    ns, nd = len(pd[0]), len(pd[3])
    pos = np.concatenate([pd[1], pd[4] - .5 * pd[5], pd[4] + .5 * pd[5]])
    a = np.concatenate([pd[0], pd[3], pd[3]])
    B = basis(box, O, E)
    lam = 1.13 * math.sqrt(math.pi) / abs(np.linalg.det(B)) ** (1 / 3)
    memo = {}

    def pair(u, v):
        if (u, v) not in memo:
            memo[u, v] = ps.num_pair(clamp(pos[u] - pos[v], a[u], a[v]), B, lam, float(a[u]), float(a[v]), float(mu), u == v, eps)
        return memo[u, v]
    return spec_far.assemble_np(ns, nd, pair)


def compare(ck, ps, pd, bl, tr, mu, O, E, what, tag, far=3, rtol=None):
    ns, nd = len(pd[0]), len(pd[3])
    box = np.asarray(tr, float) - np.asarray(bl, float)
    inp = dict(posdata=pd, bl=np.asarray(bl, float), tr=np.asarray(tr, float), mu=float(mu), far=far,
               O=np.zeros(3) if O is None else np.asarray(O, float), E=np.zeros((3, 3)) if E is None else np.asarray(E, float))
    try:
        ans = ck.real.call(CODE, inp, 300)
    except real.RealError as e:
        ck.violation("generate_Minfinity_periodic raised %s" % e, dict(function="generate_Minfinity_periodic", input=inp, error=str(e)))
        return False
    exp = expected(ps, pd, box, mu, None if O is None else inp["O"], inp["E"])
    ck.evaluated((tag, ns, nd, tuple(np.round(np.concatenate([pd[1], pd[4], pd[5]]).ravel(), 9)), tuple(box), tuple(inp["O"])),
                 dict(spheres=ns, dumbbells=nd, box=list(box), sheared=O is not None, class_=tag))
    # truncation: images and wave vectors out to `far` boxes when the setting reaches the code, else as shipped
    if rtol is None:
        rtol = 2e-7 if ans["far"] and far and far >= 3 else 2e-4
    bad = judge(ans, exp, ns, nd, rtol)
    if bad and bad[1] and ans["far"] and far:
        # the difference is the truncation's if keeping more images makes it vanish
        inp["far"] = far + 2
        bad = judge(ck.real.call(CODE, inp, 600), exp, ns, nd, rtol)
    if bad:
        ck.violation("periodic far-field mobility: %s (%s)" % (bad[0], what), dict(function="generate_Minfinity_periodic", input=inp, **bad[1]))
        return False
    return True


def judge(ans, exp, ns, nd, rtol):
    """None, or (what is wrong, details); details are given for a wrong value only."""
    got = ans["m"]
    if not ans["unchanged"]:
        return "the configuration it was given was modified", {}
    if got.shape != exp.shape:
        return "matrix has shape %s, expected %s" % (got.shape, exp.shape), {}
    if not np.all(np.isfinite(got)):
        return "matrix has entries that are not finite", {}
    if not np.allclose(got, got.T, rtol=1e-9, atol=1e-12 * np.abs(got).max()):
        return "matrix is not symmetric", {}
    tot = float(np.abs(exp).max())
    for r0, r1, c0, c1 in common.blocks_of(ns, nd):
        x, y = got[r0:r1, c0:c1], exp[r0:r1, c0:c1]
        if np.abs(x - y).max() > rtol * float(np.abs(y).max()) + rtol * 1e-2 * tot:
            return ("entry is not the lattice sum of its pair's coupling",
                    dict(rows=[r0, r1], cols=[c0, c1], expected=y, got=x, max_error=float(np.abs(x - y).max())))
    return None
