"""C08: grand vectors keep every particle's quantities in the right slots."""
import numpy as np
from vc import ring, sym, common, facade, lazyarr, rowmap
from vc.ring import SR, Unsupported
from vc.sym import SI
from vc.common import sarr
from checks import c07

LEVEL = "proof"

CODE = '''
def f(a):
    import functions.simulation_tools as t
    pd = a["pd"]
    ins = [a[k].tolist() if a["lists"] else a[k].copy() for k in ("F", "T", "S", "Fb", "DFb")]
    v = np.asarray(t.construct_force_vector_from_fts(pd, *ins), dtype=float)
    U, O, E, Ub, D = t.deconstruct_velocity_vector_for_fts(pd, a["v"].copy())
    r = t.deconstruct_velocity_vector_for_fts(pd, v.copy())
    same = all(np.array_equal(np.asarray(x, dtype=float).ravel(), a[k].ravel()) for x, k in zip(ins, ("F", "T", "S", "Fb", "DFb")))
    return {"force vector": v, "U": U, "O": O, "E": E, "Ub": Ub, "HalfDUb": D, "rF": r[0], "rT": r[1], "rS": r[2], "rFb": r[3], "rDFb": r[4], "inputs kept": same}
'''


def Q():
    out = []
    for e in c07.basis_np():
        s = (e + e.T) / 2
        out.append(s - np.trace(s) * np.eye(3) / 3)
    return np.array(out)


def check_real(ck, ns, nd, F, T, S, Fb, DFb, v, lists, tag):
    q = Q()
    c = np.einsum("jkl,ikl->ij", q, S).ravel() if ns else np.zeros(0)
    N = 11 * ns
    exp = {"force vector": np.concatenate([F.ravel(), T.ravel(), c, Fb.ravel(), DFb.ravel()]),
           "U": v[:3 * ns].reshape(ns, 3), "O": v[3 * ns:6 * ns].reshape(ns, 3), "E": np.einsum("jkl,ij->ikl", q, v[6 * ns:N].reshape(ns, 5)),
           "Ub": v[N:N + 3 * nd].reshape(nd, 3), "HalfDUb": v[N + 3 * nd:].reshape(nd, 3),
           "rF": F, "rT": T, "rS": S, "rFb": Fb, "rDFb": DFb, "inputs kept": True}
    return common.agree(ck, "grand vectors", CODE, dict(pd=common.posd(ns, nd), F=F, T=T, S=S, Fb=Fb, DFb=DFb, v=v, lists=lists), exp, tag=tag,
                        fname="construct_force_vector_from_fts, deconstruct_velocity_vector_for_fts", sample=dict(spheres=ns, dumbbells=nd, class_=tag))


def deductive(ck, some_s, some_d):
    """Any number of spheres and dumbbells (none, or at least one), any sphere i and dumbbell h."""
    m = common.world().load("functions.simulation_tools")
    tag = "%s spheres, %s dumbbells: " % ("some" if some_s else "no", "some" if some_d else "no")

    def harness():
        facade.CREATED.clear()
        ns, nd, i, h = SI.var("ns") if some_s else 0, SI.var("nd") if some_d else 0, SI.var("i"), SI.var("h")
        for n, k, some in ((ns, i, some_s), (nd, h, some_d)):
            if some:
                sym.iassume(n.z() >= 1)
                sym.iassume(k.z() >= 0)
                sym.iassume(k.z() < n.z())
        A = lambda name, shape, *pos: rowmap.array(name, shape, *pos) if isinstance(shape[0], SI) else np.empty(shape, dtype=object)
        F, T, S, Fb, D = A("F", (ns, 3)), A("T", (ns, 3)), c07.stl("S", ns) if some_s else A("S", (0, 3, 3)), A("Fb", (nd, 3)), A("D", (nd, 3))
        v = A("v", (ns * 11 + nd * 6,))
        pd = (A("ss", (ns,), True), A("sp", (ns, 3)), A("rot", (ns, 2, 3)), A("ds", (nd,), True), A("dp", (nd, 3)), A("dx", (nd, 3)))
        facade.LOOP_HOOK[0] = rowmap.RowMap()
        out = []
        try:
            a = c07.aslazy(m.construct_force_vector_from_fts(pd, F, T, S, Fb, D), ns * 11 + nd * 6)
            dec, back = m.deconstruct_velocity_vector_for_fts(pd, v), m.deconstruct_velocity_vector_for_fts(pd, a)
            shapes = [(ns, 3), (ns, 3), (ns, 3, 3), (nd, 3), (nd, 3)]
            dec, back = ([c07.aslazy(x, *s) for x, s in zip(q, shapes)] for q in (dec, back))
            z = lambda name, got, exp: out.append((tag + name, SR.lift(got) - exp))
            at = lambda arr, x: arr.get((lazyarr.canon(x),))
            if some_s:
                con = c07.aslazy(m.condense(dec[2], ns), ns, 5)
                cs = c07.aslazy(m.condense(S, ns), ns, 5)
                for k in range(3):
                    z("force slot[%d]" % k, at(a, i * 3 + k), F.get((i, k)))
                    z("torque slot[%d]" % k, at(a, ns * 3 + i * 3 + k), T.get((i, k)))
                    z("velocity slot[%d]" % k, dec[0].get((i, k)), at(v, i * 3 + k))
                    z("angular velocity slot[%d]" % k, dec[1].get((i, k)), at(v, ns * 3 + i * 3 + k))
                    z("round trip[%d]" % k, back[0].get((i, k)), F.get((i, k)))
                    z("round trip torque[%d]" % k, back[1].get((i, k)), T.get((i, k)))
                    for l in range(3):
                        z("round trip stresslet[%d,%d]" % (k, l), back[2].get((i, k, l)), S.get((i, k, l)))
                for j in range(5):
                    z("stresslet slot[%d]" % j, at(a, ns * 6 + i * 5 + j), cs.get((i, j)))
                    # strain of particle i comes from its own five slots: condensing gives them back
                    z("strain slots[%d]" % j, con.get((i, j)), at(v, ns * 6 + i * 5 + j))
            if some_d:
                b = ns * 11
                for k in range(3):
                    z("dumbbell force slot[%d]" % k, at(a, b + h * 3 + k), Fb.get((h, k)))
                    z("dumbbell difference slot[%d]" % k, at(a, b + nd * 3 + h * 3 + k), D.get((h, k)))
                    z("dumbbell velocity slot[%d]" % k, dec[3].get((h, k)), at(v, b + h * 3 + k))
                    z("dumbbell half difference slot[%d]" % k, dec[4].get((h, k)), at(v, b + nd * 3 + h * 3 + k))
                    z("dumbbell round trip[%d]" % k, back[3].get((h, k)), Fb.get((h, k)))
                    z("dumbbell difference round trip[%d]" % k, back[4].get((h, k)), D.get((h, k)))
        finally:
            facade.LOOP_HOOK[0] = None
        return out

    def conc(env, name):
        rng = np.random.default_rng(8)
        ns, nd = 3 * some_s, 2 * some_d
        check_real(ck, ns, nd, rng.normal(size=(ns, 3)), rng.normal(size=(ns, 3)), c07.tensors(rng, ns), rng.normal(size=(nd, 3)),
                   rng.normal(size=(nd, 3)), rng.normal(size=11 * ns + 6 * nd), False, "obligation %s" % name)
    seen = 0
    for ctx, (kind, res) in sym.explore(harness, limit=200):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind != "ok":
            raise Unsupported("path %s %r" % (kind, res))
        seen += 1
        for name, d in res:
            ck.zero(name, d, ctx, conc)
    if not seen:
        raise Unsupported("vacuous")


def symbolic(ck, ns, nd):
    m = common.world().load("functions.simulation_tools")
    scope = "bounded: %d spheres, %d dumbbells" % (ns, nd)
    ck.bounds.append(scope)
    F, T, S, Fb, D = sarr("F", ns, 3), sarr("T", ns, 3), c07.st("S", ns), sarr("Fb", nd, 3), sarr("D", nd, 3)
    v = sarr("v", 11 * ns + 6 * nd)
    pd = common.sposd(ns, nd)

    def harness():
        a = m.construct_force_vector_from_fts(pd, F, T, S, Fb, D)
        a = np.array([SR.lift(x) for x in a], dtype=object)
        return a, m.deconstruct_velocity_vector_for_fts(pd, v), m.deconstruct_velocity_vector_for_fts(pd, a)

    def conc(env, name):
        g = lambda x: common.npval(x, env)
        check_real(ck, ns, nd, g(F), g(T), g(S), g(Fb), g(D), g(v), False, "obligation %s" % name)
    q = Q()
    for ctx, (kind, res) in sym.explore(harness, limit=4):
        ck.paths += 1
        if kind != "ok":
            raise Unsupported("path %s %r" % (kind, res))
        a, dec, back = res
        if a.shape != (11 * ns + 6 * nd,):
            raise Unsupported("vector length")
        t = "%d+%d " % (ns, nd)
        for i in range(ns):
            for k in range(3):
                ck.zero(t + "force slot[%d,%d]" % (i, k), a[3 * i + k] - F[i, k], ctx, conc, scope)
                ck.zero(t + "torque slot[%d,%d]" % (i, k), a[3 * ns + 3 * i + k] - T[i, k], ctx, conc, scope)
                ck.zero(t + "velocity slot[%d,%d]" % (i, k), dec[0][i, k] - v[3 * i + k], ctx, conc, scope)
                ck.zero(t + "angular velocity slot[%d,%d]" % (i, k), dec[1][i, k] - v[3 * ns + 3 * i + k], ctx, conc, scope)
                for l in range(3):
                    ck.zero(t + "round trip stresslet[%d,%d,%d]" % (i, k, l), back[2][i, k, l] - S[i, k, l], ctx, conc, scope)
                ck.zero(t + "round trip[%d,%d]" % (i, k), back[0][i, k] - F[i, k], ctx, conc, scope)
                ck.zero(t + "round trip torque[%d,%d]" % (i, k), back[1][i, k] - T[i, k], ctx, conc, scope)
            # strain of particle i comes from its own five slots: condensing gives them back
            con = m.condense(dec[2], ns)
            for j in range(5):
                ck.zero(t + "strain slots[%d,%d]" % (i, j), con[i][j] - v[6 * ns + 5 * i + j], ctx, conc, scope)
        for i in range(nd):
            for k in range(3):
                b = 11 * ns
                ck.zero(t + "dumbbell force slot[%d,%d]" % (i, k), a[b + 3 * i + k] - Fb[i, k], ctx, conc, scope)
                ck.zero(t + "dumbbell difference slot[%d,%d]" % (i, k), a[b + 3 * nd + 3 * i + k] - D[i, k], ctx, conc, scope)
                ck.zero(t + "dumbbell velocity slot[%d,%d]" % (i, k), dec[3][i, k] - v[b + 3 * i + k], ctx, conc, scope)
                ck.zero(t + "dumbbell half difference slot[%d,%d]" % (i, k), dec[4][i, k] - v[b + 3 * nd + 3 * i + k], ctx, conc, scope)


def run(ck):
    ck.assume("machine floating point is treated as exact real arithmetic in the obligations")
    ck.under_contract("construct_force_vector_from_fts", "deconstruct_velocity_vector_for_fts", "condense_and_flatten", "uncondense", "posdata_data")
    done = [ck.guard("any number of particles", deductive, ck, s, d) for s, d in ((True, False), (False, True), (True, True))]
    if not all(done):
        for ns, nd in [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (2, 2), (3, 2)]:
            ck.guard("%d spheres %d dumbbells" % (ns, nd), symbolic, ck, ns, nd)
    rng = np.random.default_rng(ck.seed + 8)
    first = [(1, 1), (0, 1), (1, 0), (0, 2), (0, 3), (2, 0), (4, 0), (1, 2), (2, 1), (2, 2)]
    for k in range(26 if ck.quick else 150):
        ns, nd = first[k] if k < len(first) else (int(x) for x in rng.integers(0, 9, 2))
        if ns + nd == 0:
            nd = 3
        ok = check_real(ck, ns, nd, rng.normal(size=(ns, 3)), rng.normal(size=(ns, 3)), c07.tensors(rng, ns), rng.normal(size=(nd, 3)),
                        rng.normal(size=(nd, 3)), rng.normal(size=11 * ns + 6 * nd), bool(k % 2) and ns > 0, "random")
        if not ok:
            break
