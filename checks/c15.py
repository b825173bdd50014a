"""C15: background flow is added at each particle's own position."""
import numpy as np
from vc import ring, sym, common, facade, rowmap
from vc.ring import SR, Unsupported
from vc.sym import SI

LEVEL = "proof"

CODE = '''
def f(a):
    import functions.timestepping as t
    c = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in a.items()}
    u, o = t.add_background_flow_spheres(c["Ua"], c["Oa"], c["Ea"], c["U"], c["O"], c["x"], c["c"])
    ub, h = t.add_background_flow_dumbbells(c["Ub"], c["Hb"], c["Ea"] if len(c["Ea"]) else c["Eb"], c["U"], c["O"], c["xb"], c["dx"], c["c"])
    kept = all(np.array_equal(c[k], a[k]) for k in a)
    return {"U": np.array(u), "O": np.array(o), "Ub": np.array(ub), "HalfDUb": np.array(h), "inputs kept": bool(kept)}
'''


def oracle(a):
    r = a["x"] - a["c"]
    E = a["Ea"][0] if len(a["Ea"]) else a["Eb"][0]
    rb = a["xb"] - a["c"]
    W = np.array([[0, -a["O"][2], a["O"][1]], [a["O"][2], 0, -a["O"][0]], [-a["O"][1], a["O"][0], 0]])
    return {"U": a["Ua"] + a["U"] + r @ W.T + np.einsum("ijk,ik->ij", a["Ea"], r).reshape(len(r), 3), "O": a["Oa"] + a["O"],
            "Ub": a["Ub"] + a["U"] + rb @ (W + E).T, "HalfDUb": a["Hb"] + a["dx"] @ (W + E).T / 2, "inputs kept": True}


def example(rng, ns, nd, same=True):
    U = lambda *s: rng.uniform(-2, 2, s)
    E = U(3, 3)
    E = (E + E.T) / 2
    E -= np.eye(3) * np.trace(E) / 3
    Ea = np.array([E] * ns).reshape(ns, 3, 3) if same else np.array([E * (1 + k) for k in range(ns)]).reshape(ns, 3, 3)
    return dict(Ua=U(ns, 3), Oa=U(ns, 3), Ea=Ea, Eb=E[None], U=U(3), O=U(3), x=5 * U(ns, 3), c=U(3), Ub=U(nd, 3), Hb=U(nd, 3), xb=5 * U(nd, 3), dx=U(nd, 3))


def check_real(ck, a, tag):
    return common.agree(ck, "background flow", CODE, a, oracle(a), rtol=1e-10, atol=1e-12, tag=tag,
                        fname="add_background_flow_spheres, add_background_flow_dumbbells",
                        sample=dict(spheres=len(a["x"]), dumbbells=len(a["xb"]), class_=tag))


def vec(name):
    return common.sarr(name, 3)


def deductive(ck, which):
    m = common.world_no_tables().load("functions.timestepping")

    def harness():
        facade.CREATED.clear()
        n, ne = SI.var("n"), SI.var("ne")
        sym.iassume(n.z() >= 1)
        sym.iassume(ne.z() >= 1)
        A = lambda name, *tail: rowmap.array(name, (n,) + tail)
        U, O, c = vec("U"), vec("O"), vec("c")
        i = SI.var("i")
        sym.iassume(i.z() >= 0)
        sym.iassume(i.z() < n.z())
        facade.LOOP_HOOK[0] = rowmap.RowMap()
        e = rowmap.elt
        crs = lambda k, v: O[(k + 1) % 3] * v[(k + 2) % 3] - O[(k + 2) % 3] * v[(k + 1) % 3]
        out = []
        try:
            if which == "spheres":
                r = m.add_background_flow_spheres(A("u", 3), A("w", 3), A("E", 3, 3), U, O, A("x", 3), c)
                x = [e("x", (i, k)) - c[k] for k in range(3)]
                for k in range(3):
                    out.append(("sphere velocity[%d]" % k, r[0].get((i, k)) - (e("u", (i, k)) + U[k] + crs(k, x) + sum((e("E", (i, k, l)) * x[l] for l in range(3)), SR.const(0)))))
                    out.append(("sphere angular velocity[%d]" % k, r[1].get((i, k)) - e("w", (i, k)) - O[k]))
                shapes = [(v.shape, (n, 3)) for v in r]
            else:
                Ea = rowmap.array("E", (ne, 3, 3))
                r = m.add_background_flow_dumbbells(A("u", 3), A("h", 3), Ea, U, O, A("x", 3), A("d", 3), c)
                x = [e("x", (i, k)) - c[k] for k in range(3)]
                d = [e("d", (i, k)) for k in range(3)]
                for k in range(3):
                    flow = lambda v: crs(k, v) + sum((e("E", (0, k, l)) * v[l] for l in range(3)), SR.const(0))
                    out.append(("dumbbell velocity[%d]" % k, r[0].get((i, k)) - (e("u", (i, k)) + U[k] + flow(x))))
                    out.append(("dumbbell half-difference velocity[%d]" % k, r[1].get((i, k)) - e("h", (i, k)) - flow(d) / 2))
                shapes = [(v.shape, (n, 3)) for v in r]
        finally:
            facade.LOOP_HOOK[0] = None
        from vc.lazyarr import _same
        ok = all(len(a) == len(b) and all(_same(p, q) for p, q in zip(a, b)) for a, b in shapes)
        return out, ok
    seen = 0
    for ctx, (kind, res) in sym.explore(harness, limit=50):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        seen += 1
        for name, d in res[0]:
            ck.zero(name, d, ctx, lambda env, nm: check_real(ck, example(np.random.default_rng(0), 2, 2, False), "counterexample"))
        ck.record("%s: one row each" % which, "proved" if res[1] else "undecided", "z3")
    if not seen:
        raise Unsupported("vacuous")


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("dumbbells take the strain rate of the first sphere entry (the strain rate is the same for all, C18)")
    ck.under_contract("add_background_flow_spheres", "add_background_flow_dumbbells")
    ck.guard("spheres", deductive, ck, "spheres")
    ck.guard("dumbbells", deductive, ck, "dumbbells")
    rng = np.random.default_rng(ck.seed + 15)
    for ns, nd in [(1, 0), (0, 1), (1, 1), (2, 3), (4, 1), (6, 6), (3, 0), (0, 4)] * (1 if ck.quick else 10):
        check_real(ck, example(rng, ns, nd, rng.random() < .5 or nd > 0), "random")
