"""Shared harness pieces: symbolic posdata, real-code snippets."""
import math
import types
import numpy as np
from . import ring, sym, facade, loader
from .ring import SR, GENS, Unsupported


def world(patches=None):
    return loader.World(facade.NPFacade(), patches)


class _Opaque:
    """Tabulated data a check does not look at; any use is reported."""
    def __getattr__(self, n):
        raise ring.Unsupported("use of tabulated data (%s)" % n)

    def __getitem__(self, k):
        raise ring.Unsupported("use of tabulated data")


class _OpaqueModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Opaque()


def world_no_tables(patches=None):
    w = world(patches)
    w.stubs["resistance_scalars.data"] = _OpaqueModule("resistance_scalars.data")
    return w


def oarr(rows):
    return facade._mk(rows)


def zarr(*shape):
    return facade.zeros(shape)


def gid(x):
    return next(iter(x.gens()))


def fval(x, env):
    """Float value of an SR under env (missing free generators get a default)."""
    x = SR.lift(x)
    e = dict(env)
    for g in x.free_gens():
        if g not in e and GENS[g].meta != "pi":
            e[g] = 1.0 if GENS[g].nonneg else 0.3
    return float(x.eval(e))


def npval(a, env):
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape)
    for k in np.ndindex(*a.shape):
        out[k] = fval(a[k], env)
    return out


def posdata_np(ss, sp, ds, dp, dx):
    ns = len(ss)
    return (np.asarray(ss, float).reshape(ns), np.asarray(sp, float).reshape(ns, 3), np.zeros((ns, 2, 3)),
            np.asarray(ds, float), np.asarray(dp, float).reshape(len(ds), 3), np.asarray(dx, float).reshape(len(ds), 3))


MINF = '''
def f(a):
    import functions.generate_Minfinity as g
    if "beadbead" in a:
        if not hasattr(g, "bead_bead_interactions"):
            raise ImportError("no bead_bead_interactions")
        g.bead_bead_interactions = a["beadbead"]
    pd = a["posdata"]
    before = [x.copy() for x in pd]
    m = g.generate_Minfinity(pd, mu=a["mu"])[0]
    if hasattr(g, "bead_bead_interactions"):
        g.bead_bead_interactions = True
    ok = all(np.array_equal(x, y) for x, y in zip(before, pd))
    return {"m": np.asarray(m, dtype=float), "unchanged": ok}
'''


def close(a, b, rtol=1e-8, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    sc = scale if scale is not None else max(1e-300, float(np.abs(b).max()) if b.size else 1.0)
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(a - b) <= rtol * sc))


def blockwise_close(a, b, blocks, rtol=1e-7):
    """Compare block by block so that small blocks are not masked by large ones."""
    bad = []
    for (r0, r1, c0, c1) in blocks:
        x, y = a[r0:r1, c0:c1], b[r0:r1, c0:c1]
        sc = max(float(np.abs(y).max()), 1e-12 * max(1e-300, float(np.abs(b).max())))
        if not np.all(np.abs(x - y) <= rtol * sc + 1e-13 * float(np.abs(b).max())):
            bad.append((r0, r1, c0, c1, float(np.abs(x - y).max()), sc))
    return bad


def blocks_of(ns, nd):
    seg = []
    for i in range(ns):
        seg.append((3 * i, 3 * i + 3))
    for i in range(ns):
        seg.append((3 * ns + 3 * i, 3 * ns + 3 * i + 3))
    for i in range(ns):
        seg.append((6 * ns + 5 * i, 6 * ns + 5 * i + 5))
    for i in range(2 * nd):
        seg.append((11 * ns + 3 * i, 11 * ns + 3 * i + 3))
    return [(a, b, c, d) for a, b in seg for c, d in seg]


def agree(ck, what, code, inp, expected, rtol=1e-9, atol=1e-12, tag="random", key=None, sample=None, fname="", timeout=120):
    """Run the real code on inp and compare each named result with the oracle."""
    from . import real
    try:
        got = ck.real.call(code, inp, timeout)
    except real.RealError as e:
        ck.evaluated((tag, what, repr(real.enc(inp))[:400]), sample)
        ck.violation("%s: raised %s" % (what, str(e)[:200]), dict(function=fname, input=inp, error=str(e), traceback=e.ans.get("tb")), key)
        return False
    ck.evaluated((tag, what, repr(real.enc(inp))[:400]), sample)
    for name, exp in expected.items():
        g = got.get(name)
        if isinstance(exp, (str, bool)) or exp is None:
            if g != exp:
                ck.violation("%s: %s is %r, expected %r" % (what, name, g, exp), dict(function=fname, input=inp, result=name, expected=exp, got=g), key)
                return False
            continue
        exp = np.asarray(exp, float)
        try:
            ga = np.asarray(g, float)
        except (TypeError, ValueError):
            ga = None
        if ga is not None and ga.shape != exp.shape and ga.size == 0 and exp.size == 0:
            continue
        bad = ga is None or ga.shape != exp.shape
        if not bad and exp.size:
            sc = float(np.max(np.abs(exp)))
            with np.errstate(all="ignore"):
                bad = not bool(np.all(np.abs(ga - exp) <= rtol * sc + atol))
        if bad:
            ck.violation("%s: %s differs from the expected value" % (what, name),
                         dict(function=fname, input=inp, result=name, expected=exp, got=g), key)
            return False
    return True


def posd(ns, nd, rng=None, sizes=(1.0,)):
    """A posdata tuple for tests of functions that only use the counts."""
    rng = rng or np.random.default_rng(0)
    return (rng.choice(sizes, ns), rng.uniform(-5, 5, (ns, 3)), np.zeros((ns, 2, 3)), rng.choice(sizes, nd), rng.uniform(-5, 5, (nd, 3)),
            rng.uniform(-1, 1, (nd, 3)))


def sposd(ns, nd):
    return (oarr([SR.const(1)] * ns) if ns else zarr(0), zarr(ns, 3), zarr(ns, 2, 3), oarr([SR.const(1)] * nd) if nd else zarr(0), zarr(nd, 3), zarr(nd, 3))


def sarr(name, *shape):
    """Object array of universally quantified reals."""
    out = np.empty(shape, dtype=object)
    for k in np.ndindex(*shape):
        out[k] = ring.free("%s[%s]" % (name, ",".join(map(str, k))))
    return out
