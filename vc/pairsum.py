"""Loop rule for loops over a set of index pairs that add to the rows of one array.

for (p, q) in zip(*where(condition)): the body is run on paths of its own, from an
arbitrary content of the array it writes, at an arbitrary pair p < q in both orders
(when selected) and at an arbitrary p, p.  What it adds to each row must not depend on
the content.  numpy.where lists each selected pair once, so by induction the content
after the loop is the content before plus the sum over all pairs of what was added."""
import z3
from . import ring, sym, lazyarr
from .ring import SR, GENS, Unsupported
from .sym import SI
from .lazyarr import BodyEnd, LArr, canon


class TArr:
    """Array of truth values, each found when asked for (splits the path when open)."""
    _lazy = True
    __array_ufunc__ = None

    def __init__(self, shape, f):
        self.shape, self.f = tuple(shape), f

    ndim = property(lambda s: len(s.shape))

    def truth(self, idx):
        return bool(self.f(idx))

    def _both(self, o, op):
        if not isinstance(o, TArr):
            raise Unsupported("truth array with %r" % (type(o),))
        shape = lazyarr._bshape(self.shape, o.shape)
        if len(self.shape) != len(o.shape) or not all(lazyarr._same(a, b) for s in (self.shape, o.shape) for a, b in zip(s, shape)):
            raise Unsupported("truth arrays of different shapes")
        return TArr(shape, lambda i: op(self, o, i))

    def __and__(self, o):
        return self._both(o, lambda a, b, i: a.truth(i) and b.truth(i))

    def __or__(self, o):
        return self._both(o, lambda a, b, i: a.truth(i) or b.truth(i))

    def __invert__(self):
        return TArr(self.shape, lambda i: not self.truth(i))

    __mul__ = __and__
    __rmul__ = __and__
    __rand__ = __and__
    __add__ = __or__

    def where(self, *xy):
        if xy:
            raise Unsupported("where on a truth array")
        if OBS[0] is not None and self.ndim == 1:
            from . import pairlist
            return pairlist.first(self)
        return tuple(Hits(self, k) for k in range(self.ndim))

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("%s of a truth array" % n)


class Hits:
    """Positions along one axis of the entries that hold, in the order numpy lists them."""
    _symiter = True

    def __init__(self, t, axis):
        self.t, self.axis = t, axis

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("%s of positions" % n)

    def __getitem__(self, k):
        raise Unsupported("one of several positions")


class Pairs:
    """The index pairs at which a truth array holds, each once."""
    _symiter = True

    def __init__(self, t):
        self.t = t

    def has(self, p, q):
        return self.t.truth((p, q))


def zipped(a):
    if len(a) == 2 and all(isinstance(x, Hits) for x in a) and a[0].t is a[1].t and a[0].t.ndim == 2 and (a[0].axis, a[1].axis) == (0, 1):
        return Pairs(a[0].t)
    raise Unsupported("zip of symbolic arrays")


class Discovered(Exception):
    pass


class PairSum:
    """on_step(p, q, k, added): added to rows p, q and k (another one) by the pair, or
    None where p = q."""

    def __init__(self, on_step):
        self.on_step = on_step
        self.target = None

    def __call__(self, it, carried=(), liveout=(), loop=None):
        if not isinstance(it, Pairs):
            raise Unsupported("loop over %r" % (type(it),))
        if carried or liveout:
            raise Unsupported("loop carries %s" % (tuple(carried) + tuple(liveout),))
        return self.run(it)

    def state(self):
        u = sym.CTX.user
        out = {}
        for k, x in enumerate(u.get("symlists", [])):
            out["list", k] = x
        n = 0
        for x in u.get("owned", []):
            if getattr(x, "owner", None) is None:
                out["array", n] = x
                n += 1
        return out

    @staticmethod
    def size(x):
        return len(x.log) if isinstance(x, LArr) else (len(x._arr.log) if x._arr is not None else 0)

    def run(self, it):
        ctx = sym.CTX
        n = it.t.shape[0]
        p, q, k = SI.var("p!"), SI.var("q!"), SI.var("k!")
        snap = lazyarr._snapshot()
        objs = self.state()
        if self.target is None:
            sym.iassume(z3.And(p.z() >= 0, p.z() < SI.lift(n).z(), q.z() >= 0, q.z() < SI.lift(n).z()))
            if not it.has(p, q):
                raise sym.Infeasible()
            before = {key: self.size(x) for key, x in objs.items()}
            yield (p, q)
            self.target = [key for key, x in objs.items() if self.size(x) != before[key]]
            raise Discovered()
        if len(self.target) != 1 or self.target[0] not in objs:
            raise Unsupported("the loop writes %d arrays" % len(self.target))
        x = objs[self.target[0]]
        arr = x if isinstance(x, LArr) else x._store()
        if arr.ndim != 2 or not isinstance(arr.shape[1], int) or not lazyarr._same(arr.shape[0], n):
            raise Unsupported("shape of the array the loop adds to")
        before = {key: self.size(o) for key, o in objs.items() if o is not x}
        body = ctx.decide("generic pair")
        if body:
            sym.iassume(z3.And(p.z() >= 0, p.z() < SI.lift(n).z()))
        else:
            # from zero
            sym.iassume(z3.And(k.z() >= 0, k.z() < SI.lift(n).z()))
            ctx.user["start"] = [arr.get((k, c)) for c in range(arr.shape[1])]
        arr._get = lambda o: ring.free("sum!%s[%s]" % ("before" if body else "all", ",".join(map(lazyarr.ikey, o))), meta=("elt", "sum!", tuple(o), False))
        arr.log = []
        if not body:
            ctx.user["sum"] = arr
            return
        cols = range(arr.shape[1])
        two = ctx.decide("two different beads")
        if two:
            sym.iassume(z3.And(q.z() > p.z(), q.z() < SI.lift(n).z()))
            sym.iassume(z3.And(k.z() >= 0, k.z() < SI.lift(n).z(), k.z() != p.z(), k.z() != q.z()))
        else:
            q = p
            sym.iassume(z3.And(k.z() >= 0, k.z() < SI.lift(n).z(), k.z() != p.z()))
        if not sym.ifeasible():
            # no third bead: the statement about it is empty
            raise sym.Infeasible()
        rows = [p, q, k] if two else [p, k]
        old = {i: [arr._get((r, c)) for c in cols] for i, r in enumerate(rows)}
        gens = {g for v in old.values() for e in v for g in e.gens()}
        added = {i: [SR.const(0) for c in cols] for i in old}
        for a, b in ((p, q), (q, p)) if two else ((p, p),):
            if not it.has(a, b):
                continue
            prev = {i: [SR.lift(arr.get((r, c))) for c in cols] for i, r in enumerate(rows)}
            yield (a, b)
            lazyarr._check_snapshot(snap)
            for key, m in before.items():
                if self.size(self.state()[key]) != m:
                    raise Unsupported("the loop writes several arrays")
            for i, r in enumerate(rows):
                for c in cols:
                    d = SR.lift(arr.get((r, c))) - prev[i][c]
                    if gens & set(d.gens()):
                        raise Unsupported("what a pair adds depends on what was there")
                    added[i][c] = added[i][c] + d
        self.on_step(p, q, k, [added[i] for i in sorted(added)])
        raise BodyEnd()


# ---- lists of selected pairs -------------------------------------------------
# A list made from the selected pairs is known by what it holds for one arbitrary pair
# of indices (OBS).  `key` says which pairs in which order: two lists with equal keys are
# aligned.

OBS = [None]


class PSeq:
    _lazy = True
    _symiter = True
    __array_ufunc__ = None

    def __init__(self, key, present, val):
        self.key, self.present, self.val = key, present, val

    def items(self):
        return [self.val] if self.present else []

    def _to_lazy(self):
        return self

    def _arr_binop(self, a, b, op):
        raise Unsupported("arithmetic on a list of pairs")

    def _aug(self, op, b):
        raise Unsupported("arithmetic on a list of pairs")

    def __len__(self):
        raise Unsupported("length of a list of pairs")

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("%s of a list of pairs" % n)


def observed(it):
    """The part of the list that belongs to the observed pair."""
    if OBS[0] is None:
        raise Unsupported("comprehension over pairs")
    if isinstance(it, Pairs):
        return PSeq(("where", id(it.t)), it.has(*OBS[0]), OBS[0])
    return it
