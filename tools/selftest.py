"""Compare the exact meaning given to numpy operations with numpy itself.

Concrete facade: rational arrays through each operation.  Lazy arrays: arrays of
symbolic length n through the operation, then read at every index with n = 5 and
the elements replaced by numbers.  python3-vt tools/selftest.py [seed]"""
import os
import re
import sys
from fractions import Fraction
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import facade, ring
from vc.ring import SR

F = facade.NPFacade()
rng = np.random.default_rng(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
bad = done = 0


def q(*shape):
    """Random multiples of 1/8, exact in both worlds; none zero."""
    v = rng.integers(1, 40, shape) * rng.choice([-1, 1], shape)
    return v / 8.


def ex(x):
    """The facade's form of a numpy array."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "bi":
            return x
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            f = Fraction(float(x[i]))
            o[i] = SR.const(f.numerator) / f.denominator
        return facade.toarr(o)
    if isinstance(x, (list, tuple)):
        return type(x)(ex(y) for y in x)
    if isinstance(x, float):
        f = Fraction(x)
        return SR.const(f.numerator) / f.denominator
    return x


def num(x):
    if isinstance(x, (list, tuple)):
        return np.array([num(y) for y in x], dtype=object if len({np.shape(num(y)) for y in x}) > 1 else float)
    if isinstance(x, SR):
        return x.eval({})
    if isinstance(x, np.ndarray) and x.dtype == object:
        o = np.empty(x.shape)
        for i in np.ndindex(*x.shape):
            o[i] = float(SR.lift(x[i]).eval({})) if not isinstance(x[i], (bool, np.bool_)) else x[i]
        return o
    return np.asarray(x, dtype=float)


def test(name, *args, fn=None, **kw):
    global bad, done
    done += 1
    f = fn or getattr(F, name)
    want = getattr(np, name)(*args, **kw) if fn is None else None
    try:
        got = f(*[ex(a) for a in args], **kw)
    except ring.Unsupported as e:
        print("not handled:", name, e)
        return
    compare(name, got, want)


def compare(name, got, want):
    global bad
    try:
        if isinstance(want, tuple):
            ok = len(want) == len(got) and all(np.array_equal(np.asarray(num(a), float), b) for a, b in zip(got, want))
        else:
            g = np.asarray(num(got), float)
            ok = g.shape == np.shape(want) and np.allclose(g, np.asarray(want, float), rtol=1e-12, atol=1e-12)
    except Exception as e:
        ok = False
        print(name, repr(e))
    if not ok:
        bad += 1
        print("DIFFERS", name, "\n  facade", got, "\n  numpy ", want)


for _ in range(20):
    v, w, m, k = q(3), q(3), q(3, 3), q(4, 3)
    for n in ("abs", "sum", "diag", "transpose", "ravel", "negative", "square", "copy", "floor", "mean", "flip", "squeeze", "trace"):
        test(n, m)
    for n in ("add", "subtract", "multiply", "divide", "minimum", "maximum", "mod", "power")[:7]:
        test(n, v, np.abs(w))
        test(n, k, np.abs(w))
    for n in ("dot", "matmul", "outer", "cross"):
        test(n, v, w) if n != "matmul" else test(n, m, v)
    test("dot", k, m), test("dot", m, v), test("cross", v, m), test("cross", k, np.tile(w, (4, 1)))
    test("concatenate", (m, k)), test("concatenate", [v, w]), test("concatenate", (m, m), axis=1)
    test("append", m, k, 0), test("append", v, w), test("vstack", [v, w]), test("hstack", [m, m]), test("stack", [v, w])
    for ax in (0, 1):
        test("sum", k, axis=ax), test("max", k, axis=ax), test("min", k, axis=ax), test("mean", k, axis=ax)
    test("triu", m), test("tril", m), test("triu", m, 1), test("tril", m, -1), test("tile", v, 3), test("repeat", v, 2)
    test("einsum", "ij,jk->ik", m, m), test("einsum", "ij,j->i", m, v)
    test("where", k > 0), test("where", k > 0, k, -k), test("nonzero", k > 1), test("any", k > 3), test("all", k > -6)
    test("array_equal", v, v.copy()), test("array_equal", v, w), test("isclose", v, w), test("allclose", v, v)
    test("isin", np.round(v), np.round(k).ravel()), test("interp", float(q(1)[0]), np.array([-6., -1., 2., 5.5]), q(4))
    test("eye", 3), test("zeros", (2, 3)), test("ones", (2, 3)), test("arange", 2, 9, 3), test("roll", v, 1), test("delete", v, 1)
    done += 3
    compare("linalg.inv", F.linalg.inv(ex(m)), np.linalg.inv(m))
    compare("linalg.norm", F.linalg.norm(ex(v)), np.linalg.norm(v))
    compare("linalg.norm axis", F.linalg.norm(ex(k), axis=1), np.linalg.norm(k, axis=1))
    if hasattr(F.linalg, "solve"):
        done += 1
        compare("linalg.solve", F.linalg.solve(ex(m), ex(v)), np.linalg.solve(m, v))
    # Python operators as the rewriting sends them
    a, b = float(q(1)[0]), float(abs(q(1)[0]))
    for nm, op in (("__vc_add", lambda x, y: x + y), ("__vc_sub", lambda x, y: x - y), ("__vc_mul", lambda x, y: x * y), ("__vc_div", lambda x, y: x / y),
                   ("__vc_mod", lambda x, y: x % y), ("__vc_fdiv", lambda x, y: x // y)):
        if nm in facade.OPF:
            done += 1
            compare(nm, facade.OPF[nm](ex(a), ex(b)), op(a, b))
    done += 2
    compare("coo_matrix", facade.coo_matrix((ex(np.array([1., 2., 3.])), (np.array([0, 1, 1]), np.array([0, 0, 0]))), shape=(2, 2)).toarray(),
            np.array([[1., 0], [5., 0]]))
    from scipy.spatial.distance import pdist, squareform
    compare("squareform(pdist)", facade.squareform(facade.pdist(ex(k))), squareform(pdist(k)))


def lazies():
    """Arrays of symbolic length, at n = 5."""
    global done
    from vc import sym, rowmap, lazyarr
    from vc.sym import SI
    N = 5
    val = {"x": q(N, 3), "y": q(N, 3), "a": np.abs(q(N))}
    x, y, a = val["x"], val["y"], val["a"]
    cases = [
        ("x + y", lambda X, Y, A: facade.OPF["__vc_add"](X, Y), x + y), ("x * 2 - y", lambda X, Y, A: facade.OPF["__vc_sub"](facade.OPF["__vc_mul"](X, 2), Y), x * 2 - y),
        ("x[:, 1]", lambda X, Y, A: X[:, 1], x[:, 1]), ("x[1:]", lambda X, Y, A: X[1:], x[1:]),
        ("a[:, None]", lambda X, Y, A: facade.OPF["__vc_add"](A, A[:, None]), a + a[:, None]),
        ("norm", lambda X, Y, A: F.linalg.norm(X, axis=1), np.linalg.norm(x, axis=1)),
        ("concatenate", lambda X, Y, A: F.concatenate([X, Y]), np.concatenate([x, y])),
        ("cross", lambda X, Y, A: F.cross(X, Y), np.cross(x, y)), ("dot", lambda X, Y, A: F.dot(X, ex(np.diag([1., 2., 3.]))), x @ np.diag([1., 2., 3.])),
        ("distances", lambda X, Y, A: facade.squareform(facade.pdist(X)), np.linalg.norm(x - x[:, None], axis=2)),
    ]
    for name, f, want in cases:
        def harness():
            n = SI.var("n")
            sym.iassume(n.z() == N)
            X, Y, A = rowmap.array("x", (n, 3)), rowmap.array("y", (n, 3)), rowmap.array("a", (n,), True)
            env = {}
            for nm, arr in (("x", X), ("y", Y), ("a", A)):
                for i in np.ndindex(*val[nm].shape):
                    g = SR.lift(arr.get(i))
                    env[next(iter(g.free_gens()))] = float(val[nm][i])
            r = f(X, Y, A)
            out = np.empty(np.shape(want))
            for i in np.ndindex(*out.shape):
                e = SR.lift(r.get(i))
                for g in e.free_gens():
                    # an index may be written with n
                    nm, ix = re.fullmatch(r"(\w+)\[(.*)\]", ring.GENS[g].name).groups()
                    env[g] = float(val[nm][tuple(int(eval(t, {"n": N})) for t in ix.split(","))])
                out[i] = float(e.eval(env))
            return out
        got = []
        for ctx, (kind, res) in sym.explore(harness, limit=50):
            if kind == "dead":
                continue
            got.append(res)
        done += 1
        if not got or not all(isinstance(g, np.ndarray) and np.allclose(g, want) for g in got):
            global bad
            bad += 1
            print("DIFFERS lazy", name, got[:1], want)


lazies()
print("%d comparisons, %d differ" % (done, bad))
sys.exit(1 if bad else 0)
