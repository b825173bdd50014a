"""C22: safety checks trip exactly when a run is outside its valid range."""
import numpy as np
from vc import ring, sym, common, facade, rowmap, fold, preds, lazyarr
from vc.ring import SR, Unsupported
from vc.sym import SI

LEVEL = "proof"

SIZES = '''
def f(a):
    import functions.timestepping as t
    s, l = a["sizes"].copy(), a["lam"].copy()
    r = t.do_we_have_all_size_ratios(a["error"], s, l, a["ns"])
    return {"error": bool(r), "kept": bool(np.array_equal(s, a["sizes"]) and np.array_equal(l, a["lam"]))}
'''

LENGTHS = '''
def f(a):
    import functions.timestepping as t
    o, n = a["old"].copy(), a["new"].copy()
    r = t.did_something_go_wrong_with_dumbells(a["error"], o, n, a["prot"])
    return {"error": bool(r), "kept": bool(np.array_equal(o, a["old"]) and np.array_equal(n, a["new"]))}
'''

TABLE = '''
def f(a):
    import resistance_scalars.data as d
    return {"lam": np.array(d.lam_range, float)}
'''


def missing(a):
    """Is some ratio of two radii not in the table (either way round)?"""
    tab = set(a["lam"].tolist()) | set((1 / a["lam"]).tolist())
    return any(x / y not in tab for x in a["sizes"].tolist() for y in a["sizes"].tolist())


def check_sizes(ck, a, tag):
    exp = True if missing(a) else a["error"]
    return common.agree(ck, "size ratio check", SIZES, a, {"error": bool(exp), "kept": True}, tag=tag, fname="do_we_have_all_size_ratios",
                        sample=dict(sizes=a["sizes"].tolist(), error=a["error"], expected=bool(exp), class_=tag))


def check_lengths(ck, a, tag):
    exp = a["error"] or (a["prot"] and any(np.sqrt((d * d).sum()) > 5 for d in a["new"]))
    return common.agree(ck, "dumbbell length check", LENGTHS, a, {"error": bool(exp), "kept": True}, tag=tag, fname="did_something_go_wrong_with_dumbells",
                        sample=dict(lengths=[float(np.linalg.norm(d)) for d in a["new"]], protection=a["prot"], error=a["error"], class_=tag))


def lengths_obligations(ck):
    m = common.world_no_tables().load("functions.timestepping")
    steps = []

    def harness():
        facade.CREATED.clear()
        prot = sym.CTX.decide("protection on")
        err = sym.CTX.decide("error before")
        n = SI.var("n")
        sym.iassume(n.z() >= 0)
        if sym.CTX.decide("no dumbbells"):
            r = m.did_something_go_wrong_with_dumbells(err, common.zarr(0, 3), common.zarr(0, 3), prot)
            return "empty", r is err or r == err
        old, new = rowmap.array("old", (n, 3)), rowmap.array("new", (n, 3))
        out = []

        def step(i, before, after):
            d = [rowmap.elt("new", (i, k)) for k in range(3)]
            long = bool(ring.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) > 5)
            e = before.get("error", err)
            want = e or (prot and long)
            out.append(bool(after.get("error", err)) == want and len(before) <= 1)
        h = fold.Fold(lambda name, v: sym.CTX.decide("arbitrary " + name), step)
        facade.LOOP_HOOK[0] = h
        try:
            r = m.did_something_go_wrong_with_dumbells(err, old, new, prot)
        except lazyarr.BodyEnd:
            return "step", all(out) and len(out) == 1
        finally:
            facade.LOOP_HOOK[0] = None
        if h.initial.get("error", err) != err:
            return "start", False
        return "after", r == h.state.get("error", err)
    seen = set()
    for ctx, (kd, res) in sym.explore(harness, limit=200):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        what, ok = res
        seen.add(what)
        name = {"empty": "no dumbbells: the flag is passed through", "start": "the flag enters the loop unchanged",
                "step": "each dumbbell sets the flag exactly when protection is on and it is longer than five",
                "after": "the flag after the last dumbbell is returned"}[what]
        ck.record(name, "proved" if ok else "refuted", "ring")
        if not ok:
            lengths_sweep(ck, np.random.default_rng(5), 30, "counterexample")
    if not {"empty", "step", "after"} <= seen:
        raise Unsupported("vacuous")


def sizes_obligations(ck):
    m = common.world_no_tables().load("functions.timestepping")

    def harness():
        err = sym.CTX.decide("error before")
        n, K, ns = SI.var("n"), SI.var("K"), SI.var("ns")
        for c in (n.z() >= 1, K.z() >= 1, ns.z() >= 0, ns.z() <= n.z()):
            sym.iassume(c)
        a, lam = rowmap.array("a", (n,), pos=True), rowmap.array("lam", (K,), pos=True)
        r = m.do_we_have_all_size_ratios(err, a, lam, ns)
        u = sym.CTX.user.get("exists", [])
        if len(u) != 1:
            raise Unsupported("%d existence questions" % len(u))
        p, idx = u[0]
        lx = rowmap.elt("lam", (SI.var("ix!"),), True)
        key = sorted([(lazyarr.ikey(K), tuple(sorted(lx.t.items()))), (lazyarr.ikey(K), tuple(sorted((1 / lx).t.items())))])
        atom = lambda x, y: preds.member(rowmap.elt("a", (x,), True) / rowmap.elt("a", (y,), True), key)
        out = []
        if idx is None:
            # no entry of the questioned array holds: every ratio must be covered by it
            i, j = SI.var("ri"), SI.var("rj")
            for v in (i, j):
                sym.iassume(v.z() >= 0)
                sym.iassume(v.z() < n.z())
            out.append(("every ratio is looked up", min_diff(p, [(i, j), (j, i)], atom(i, j)) and p.neg))
            out.append(("nothing missing: the flag is passed through", r is err or r == err))
        else:
            d = p.f(idx)
            out.append(("a hit is a missing ratio", any((SR.lift(d) - atom(x, y)).is_zero() for x, y in ((idx[0], idx[-1]), (idx[-1], idx[0]))) and p.neg))
            out.append(("something missing: error", r is True))
        return out
    seen = 0
    for ctx, (kd, res) in sym.explore(harness, limit=200):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        seen += 1
        for name, ok in res:
            ck.record("size ratios: " + name, "proved" if ok else "undecided", "ring")
    if not seen:
        raise Unsupported("vacuous")


def min_diff(p, idxs, want):
    return any((SR.lift(p.f(ix)) - want).is_zero() for ix in idxs)


def lengths_sweep(ck, rng, n, tag):
    for q in range(n):
        nd = int(rng.integers(0, 5))
        d = rng.normal(size=(nd, 3))
        d /= np.linalg.norm(d, axis=1)[:, None]
        L = np.where(rng.random(nd) < .6, rng.uniform(.1, 4.99, nd), rng.uniform(5.001, 30, nd))
        if q % 4 == 0 and nd:
            L[:] = rng.uniform(.1, 4.9, nd)
            L[rng.integers(nd)] = 5.01
        if q % 5 == 0 and nd:
            d, L = np.tile([[0, 0, 1.]], (nd, 1)), np.full(nd, 5.)
        old = rng.normal(size=(nd, 3)) if q % 3 else d * rng.uniform(.5, 9)
        for prot in (True, False):
            for e in (True, False):
                if not check_lengths(ck, dict(old=old, new=d * L[:, None], prot=prot, error=e), tag):
                    return


def answers(ck, sizes, tab, ns):
    a = dict(sizes=np.array(sizes), lam=tab, error=True, ns=ns)
    return common.agree(ck, "size ratio check", SIZES, a, {"error": True, "kept": True}, tag="rounding", fname="do_we_have_all_size_ratios",
                        sample=dict(sizes=np.array(sizes).tolist(), class_="rounding"))


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations; the real code compares floating-point ratios for equality")
    ck.assume("the table of ratios contains 1")
    ck.under_contract("do_we_have_all_size_ratios", "did_something_go_wrong_with_dumbells")
    ck.guard("dumbbell lengths", lengths_obligations, ck)
    ck.guard("size ratios", sizes_obligations, ck)
    rng = np.random.default_rng(ck.seed + 22)
    lengths_sweep(ck, rng, 25 if ck.quick else 250, "random")
    lam = ck.real.call(TABLE, {})["lam"]
    for q in range(30 if ck.quick else 300):
        tab = lam if q % 2 else np.array([1., .5, .25, .1][:int(rng.integers(1, 5))])
        n = int(rng.integers(1, 6))
        base = rng.choice([1., 2., .5, 3.])
        pool = np.concatenate([[1.], tab, [7.7, .33]]) if q % 3 else np.array([1., float(rng.choice(tab))])
        sizes = rng.choice(pool, n) * base
        rats = sizes[:, None] / sizes[None, :]
        full = np.concatenate([tab, 1 / tab])
        near = np.min(np.abs(rats[:, :, None] / full - 1), axis=2)
        if np.any((near > 0) & (near < 1e-9)):
            # equal up to rounding only: which answer is not decided by the statement, but there has to be one
            if not answers(ck, sizes, tab, n):
                return
            continue
        for e in (True, False):
            if not check_sizes(ck, dict(sizes=sizes, lam=tab, error=e, ns=int(rng.integers(0, n + 1))), "random"):
                return
    for sizes in ([.3, 3.], [3., .3], [6., .6], [.7, 7.]):
        for ns in range(3):
            if not answers(ck, sizes, np.array([.01, .1, 1.]), ns):
                return
    one = np.array([1., .5])
    for sizes in ([1.], [2., 2.], [1., .5], [1., .25, .5], [1., 2.], [4., 1., 2.], [1., 1., 1., 3.], [3., 1.], [1., .3]):
        for ns in range(len(sizes) + 1):
            check_sizes(ck, dict(sizes=np.array(sizes), lam=one, error=False, ns=ns), "listed")
