"""C07: the five-component stresslet form is a lossless isometry."""
import numpy as np
from vc import ring, sym, common, facade, lazyarr, rowmap
from vc.ring import SR, Unsupported
from vc.sym import SI
from vc.common import sarr

LEVEL = "proof"

CODE = '''
def f(a):
    import functions.simulation_tools as t
    import functions.shared as sh
    n = len(a["A"])
    c = np.array(t.condense(a["A"].copy(), n), dtype=float).reshape(n, 5)
    c2 = np.array(t.condense(a["A"].tolist(), n), dtype=float).reshape(n, 5)
    fl = np.array(t.condense_and_flatten(a["A"].copy(), n), dtype=float)
    d = np.array(t.condense(a["B"].copy(), n), dtype=float).reshape(n, 5)
    lin = np.array(t.condense(a["A"]*a["k"] + a["B"], n), dtype=float).reshape(n, 5)
    back = t.uncondense(c, n)
    v = a["v"].copy()
    u = t.uncondense(v, n)
    again = np.array(t.condense(u, n), dtype=float).reshape(n, 5)
    return {"condense": c, "condense of lists": c2, "condense_and_flatten": fl, "round trip": back, "uncondense": u, "condense of uncondense": again,
            "dot": (c*d).sum(axis=1), "linear": lin, "input kept": bool(np.array_equal(v, a["v"]))}
'''


def basis_np():
    s3 = np.sqrt(3.)
    E = np.zeros((5, 3, 3))
    p, m = (s3 + 1) / 2, (s3 - 1) / 2
    E[0] = np.diag([p, m, 0])
    E[2] = np.diag([m, p, 0])
    E[1][0, 1] = E[3][0, 2] = E[4][1, 2] = np.sqrt(2.)
    return E


def tensors(rng, n):
    A = rng.normal(size=(n, 3, 3))
    A = A + A.transpose(0, 2, 1)
    return A - np.trace(A, axis1=1, axis2=2)[:, None, None] * np.eye(3) / 3


def check_real(ck, A, B, v, k, tag):
    n = len(A)
    # independent of the code's formulae: an orthonormal basis of symmetric traceless tensors
    E = basis_np()
    Q = []
    for e in E:
        # the dual tensor: symmetric traceless X with X:T = e:T for all symmetric traceless T
        s = (e + e.T) / 2
        Q.append(s - np.trace(s) * np.eye(3) / 3)
    Q = np.array(Q)
    c = np.einsum("jkl,ikl->ij", Q, A)
    return common.agree(ck, "stresslet condensation", CODE, dict(A=A, B=B, v=v, k=k), {
        "condense": c, "condense of lists": c, "condense_and_flatten": c.ravel(), "round trip": A, "uncondense": np.einsum("jkl,ij->ikl", Q, v),
        "condense of uncondense": v, "dot": np.einsum("ikl,ikl->i", A, B), "linear": k * c + np.einsum("jkl,ikl->ij", Q, B), "input kept": True},
        tag=tag, fname="condense, condense_and_flatten, uncondense", sample=dict(particles=n, class_=tag))


def st(name, n):
    """n arbitrary symmetric traceless tensors."""
    x = sarr(name, n, 5)
    out = np.empty((n, 3, 3), dtype=object)
    for i in range(n):
        a, b, c, d, e = x[i]
        out[i] = [[a, b, c], [b, d, e], [c, e, -a - d]]
    return out


def stl(name, n):
    """Arbitrarily many (n) arbitrary symmetric traceless tensors."""
    slot = {(0, 0): 0, (0, 1): 1, (0, 2): 2, (1, 1): 3, (1, 2): 4}

    def get(o):
        x, y = sorted(o[1:])
        e = lambda c: rowmap.elt(name, (o[0], c))
        return -e(0) - e(3) if (x, y) == (2, 2) else e(slot[x, y])
    return lazyarr.LArr((n, 3, 3), get, name=name)


def aslazy(x, *shape):
    """The result (a list or an array) as an array, of the shape it must have."""
    x = x._to_lazy() if hasattr(x, "_to_lazy") else x
    if isinstance(x, np.ndarray) and all(isinstance(q, int) for q in shape) and x.shape == shape:
        return x
    if not isinstance(x, lazyarr.LArr):
        raise Unsupported("result is %r" % type(x))
    if len(x.shape) != len(shape) or not all(lazyarr._same(p, q) for p, q in zip(x.shape, shape)):
        raise Unsupported("result has another shape")
    return x


def deductive(ck):
    """Any number n of particles, any particle i."""
    m = common.world().load("functions.simulation_tools")
    k = ring.free("k")

    def harness():
        facade.CREATED.clear()
        n, i = SI.var("n"), SI.var("i")
        sym.iassume(n.z() >= 1)
        sym.iassume(i.z() >= 0)
        sym.iassume(i.z() < n.z())
        A, B, v = stl("A", n), stl("B", n), rowmap.array("v", (n, 5))
        facade.LOOP_HOOK[0] = rowmap.RowMap()
        try:
            c, d = aslazy(m.condense(A, n), n, 5), aslazy(m.condense(B, n), n, 5)
            lin = aslazy(m.condense(A * k + B, n), n, 5)
            fl = aslazy(m.condense_and_flatten(A, n), n * 5)
            back = aslazy(m.uncondense(c, n), n, 3, 3)
            u = aslazy(m.uncondense(v, n), n, 3, 3)
            again = aslazy(m.condense(u, n), n, 5)
            # every element that the obligations name, read while the path is open
            R3 = [(x, y) for x in range(3) for y in range(3)]
            at = lambda a, ix: {q: a.get((i,) + (q if isinstance(q, tuple) else (q,))) for q in ix}
            return dict(A=at(A, R3), B=at(B, R3), v=at(v, range(5)), c=at(c, range(5)), d=at(d, range(5)), lin=at(lin, range(5)),
                        fl={j: fl.get((lazyarr.canon(i * 5 + j),)) for j in range(5)}, back=at(back, R3), u=at(u, R3), again=at(again, range(5)))
        finally:
            facade.LOOP_HOOK[0] = None

    def conc(env, name):
        rng = np.random.default_rng(7)
        check_real(ck, tensors(rng, 3), tensors(rng, 3), rng.normal(size=(3, 5)), 1.7, "obligation %s" % name)
    seen = 0
    for ctx, (kind, r) in sym.explore(harness, limit=50):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind != "ok":
            raise Unsupported("path %s %r" % (kind, r))
        seen += 1
        Z = SR.const(0)
        for x in range(3):
            for y in range(3):
                ck.zero("round trip[i,%d,%d]" % (x, y), r["back"][x, y] - r["A"][x, y], ctx, conc)
                ck.zero("uncondensed is symmetric[i,%d,%d]" % (x, y), r["u"][x, y] - r["u"][y, x], ctx, conc)
        ck.zero("uncondensed is traceless[i]", r["u"][0, 0] + r["u"][1, 1] + r["u"][2, 2], ctx, conc)
        ck.zero("dot product is double contraction[i]",
                sum((r["c"][j] * r["d"][j] for j in range(5)), Z) - sum((r["A"][q] * r["B"][q] for q in r["A"]), Z), ctx, conc)
        for j in range(5):
            ck.zero("condense inverts uncondense[i,%d]" % j, r["again"][j] - r["v"][j], ctx, conc)
            ck.zero("linear[i,%d]" % j, r["lin"][j] - k * r["c"][j] - r["d"][j], ctx, conc)
            ck.zero("flattened form agrees[i,%d]" % j, r["fl"][j] - r["c"][j], ctx, conc)
    if not seen:
        raise Unsupported("vacuous")


def symbolic(ck, n):
    m = common.world().load("functions.simulation_tools")
    scope = "bounded: %d particles" % n
    ck.bounds.append(scope)
    A, B, v = st("A", n), st("B", n), sarr("v", n, 5)
    k = ring.free("k")

    def harness():
        asarr = lambda l: np.array([[SR.lift(x) for x in r] for r in l], dtype=object).reshape(n, 5)
        c, d = asarr(m.condense(A, n)), asarr(m.condense(B, n))
        lin = asarr(m.condense(A * k + B, n))
        fl = [SR.lift(x) for x in m.condense_and_flatten(A, n)]
        back = m.uncondense(c, n)
        u = m.uncondense(v, n)
        again = asarr(m.condense(u, n))
        return c, d, lin, fl, back, u, again

    def conc(env, name):
        check_real(ck, common.npval(A, env), common.npval(B, env), common.npval(v, env), common.fval(k, env), "obligation %s" % name)
    for ctx, (kind, res) in sym.explore(harness, limit=4):
        ck.paths += 1
        if kind != "ok":
            raise Unsupported("path %s %r" % (kind, res))
        c, d, lin, fl, back, u, again = res
        for i in range(n):
            for x in range(3):
                for y in range(3):
                    ck.zero("round trip[%d,%d,%d,%d]" % (n, i, x, y), back[i, x, y] - A[i, x, y], ctx, conc, scope)
                    ck.zero("uncondensed is symmetric[%d,%d,%d,%d]" % (n, i, x, y), u[i, x, y] - u[i, y, x], ctx, conc, scope)
            ck.zero("uncondensed is traceless[%d,%d]" % (n, i), u[i, 0, 0] + u[i, 1, 1] + u[i, 2, 2], ctx, conc, scope)
            dot = sum((c[i, j] * d[i, j] for j in range(5)), SR.const(0))
            dd = sum((A[i, x, y] * B[i, x, y] for x in range(3) for y in range(3)), SR.const(0))
            ck.zero("dot product is double contraction[%d,%d]" % (n, i), dot - dd, ctx, conc, scope)
            for j in range(5):
                ck.zero("condense inverts uncondense[%d,%d,%d]" % (n, i, j), again[i, j] - v[i, j], ctx, conc, scope)
                ck.zero("linear[%d,%d,%d]" % (n, i, j), lin[i, j] - k * c[i, j] - d[i, j], ctx, conc, scope)
                ck.zero("flattened form agrees[%d,%d,%d]" % (n, i, j), fl[5 * i + j] - c[i, j], ctx, conc, scope)


def run(ck):
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations")
    ck.under_contract("condense", "condense_and_flatten", "uncondense", "contraction")
    if not ck.guard("any number of particles", deductive, ck):
        for n in (1, 2, 3):
            ck.guard("%d particles" % n, symbolic, ck, n)
    rng = np.random.default_rng(ck.seed + 7)
    for n in [0, 1, 2, 5, 17] if ck.quick else list(range(0, 40)):
        if not check_real(ck, tensors(rng, n), tensors(rng, n), rng.normal(size=(n, 5)), rng.normal(), "random"):
            break
