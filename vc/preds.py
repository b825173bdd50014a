"""Truth-valued arrays of symbolic size: membership in a table, existence.

Asking whether any entry holds splits the path: either some entry holds, and a
fresh index names the first one, or none does, which is recorded for every index."""
import z3
from . import ring, sym, lazyarr
from .ring import SR, Unsupported
from .sym import SI, SBool
from .lazyarr import ikey, _same


def member(x, parts):
    """Atom: x is among the values of the table (1) or not (0)."""
    return ring.func("member", SR.lift(x), ("table",) + tuple(sorted(parts)))


def table_key(b):
    from .facade import toarr
    parts = getattr(b, "parts", None) or [b]
    out = []
    for p in parts:
        if isinstance(p, lazyarr.LArr):
            if len(p.shape) != 1:
                raise Unsupported("table of rank %d" % len(p.shape))
            if getattr(p, "parts", None):
                out += table_key(p)
                continue
            mark = sym.CTX.push(z3.And(z3.Int("ix!") >= 0, z3.Int("ix!") < SI.lift(p.shape[0]).z()))
            e = SR.lift(p.get((SI.var("ix!"),)))
            sym.CTX.pop(mark)
            out.append((ikey(p.shape[0]), tuple(sorted(e.t.items()))))
        else:
            for v in toarr(p).ravel():
                out.append(("1", tuple(sorted(SR.lift(v).t.items()))))
    return sorted(set(out))


class Pred:
    _lazy = True
    __array_ufunc__ = None

    def __init__(self, shape, f, neg=False):
        self.shape, self.f, self.neg = tuple(shape), f, neg

    ndim = property(lambda s: len(s.shape))

    def truth(self, idx):
        """Python truth of an entry (splits the path when open)."""
        v = bool(SBool(self.f(idx), "!="))
        return v != self.neg

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (list, tuple)):
            shape = tuple(shape[0])
        if len(shape) == len(self.shape) and all(_same(a, b) for a, b in zip(shape, self.shape)):
            return self
        raise Unsupported("reshape of a truth array")

    def __invert__(self):
        return Pred(self.shape, self.f, not self.neg)

    def __eq__(self, o):
        if isinstance(o, (bool, int)) and o in (0, 1):
            return self if o else ~self
        raise Unsupported("comparison of truth arrays")

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def where(self, *xy):
        if xy:
            raise Unsupported("where on a truth array")
        n = self.exists()
        return tuple(Hits(self, k) for k in range(self.ndim)) if n else tuple(() for _ in self.shape)

    def exists(self):
        ctx = sym.CTX
        u = ctx.user.setdefault("exists", [])
        if ctx.decide("some entry"):
            idx = tuple(SI.var("hit%d.%d" % (len(u), k)) for k in range(self.ndim))
            for i, n in zip(idx, self.shape):
                sym.iassume(z3.And(i.z() >= 0, i.z() < SI.lift(n).z()))
            if not sym.ifeasible():
                raise sym.Infeasible()
            sym.assume(SBool(self.f(idx), "!=" if not self.neg else "=="))
            u.append((self, idx))
            self.hit = idx
            return True
        u.append((self, None))
        return False

    def any(self, *a):
        return self.exists()

    def all(self, *a):
        return not (~self).exists()


class Hits:
    """Positions along one axis of the entries that hold (at least one)."""

    def __init__(self, p, axis):
        self.p, self.axis = p, axis

    def _symlen(self):
        n = SI.var("hits")
        sym.iassume(n.z() >= 1)
        return n

    def __getitem__(self, k):
        if k == 0:
            return self.p.hit[self.axis]
        # at least one entry holds; a further one need not
        if not isinstance(k, int) or k < 0 or not sym.ientails(SI.var("hits").z() > k):
            raise Unsupported("position %s of those that hold" % (k,))
        i = SI.var("otherhit%s.%d" % (k, self.axis))
        sym.iassume(z3.And(i.z() >= 0, i.z() < SI.lift(self.p.shape[self.axis]).z()))
        return i


def in1d(a, b):
    if not isinstance(a, lazyarr.LArr):
        raise Unsupported("membership")
    key = table_key(b)
    return Pred(a.shape, lambda o: member(a.get(o), key))
