"""Arrays of symbolic shape, and the loop cut.

An LArr knows its shape (ints or SI) and how to read any element; writes are
logged and later reads search the log, deciding overlap with z3 (forking the
path when the integer facts do not decide it)."""
import numpy as _np
import re
import z3
from . import ring, sym
from .ring import SR, Unsupported
from .sym import SI, SBool


def canon(i):
    """Canonical linear form of an index on the current path."""
    if isinstance(i, SI) and sym.CTX is not None:
        sub = sym.CTX.user.get("isub")
        if sub:
            for n in list(i.v):
                if n in sub:
                    k = i.v[n]
                    r = SI(i.c, {a: b for a, b in i.v.items() if a != n}).norm() + sub[n] * k
                    return canon(r)
        return i
    return i


def ikey(i):
    i = canon(i)
    if isinstance(i, SI):
        return "+".join(["%d*%s" % (k, n) for n, k in sorted(i.v.items())] + ([str(i.c)] if i.c else []))
    return str(int(i))


def learn_int_eq(a, b):
    """Record a == b for canonical indices (called for assumed equalities)."""
    d = canon(SI.lift(a) - SI.lift(b)) if isinstance(SI.lift(a) - SI.lift(b), SI) else None
    if d is None:
        return
    for n, k in d.v.items():
        if abs(k) == 1:
            rest = SI(d.c, {x: y for x, y in d.v.items() if x != n}).norm()
            sub = sym.CTX.user.setdefault("isub", {})
            sub[n] = (rest * (-1)) if k == 1 else rest
            return


def itrue(c):
    """Force an integer condition (forks if open)."""
    if isinstance(c, SBool):
        return bool(c)
    return bool(c)


def eq(a, b):
    a, b = canon(a), canon(b)
    r = (SI.lift(a) - SI.lift(b))
    if not isinstance(r, SI):
        return r == 0
    v = bool(SBool(z=r.z() == 0))
    if v:
        learn_int_eq(a, b)
    return v


MISS = object()


class LArr:
    _lazy = True
    __array_ufunc__ = None
    __array_priority__ = 5000

    def __init__(self, shape, get, owned=False, name="", integer=False):
        self.shape = tuple(shape)
        self._get = get
        self.log = []
        self.owned = owned
        self.name = name
        self.integer = integer
        if owned and sym.CTX is not None:
            sym.CTX.user.setdefault("owned", []).append(self)

    ndim = property(lambda s: len(s.shape))

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    @property
    def T(self):
        return self.transpose()

    def base(self, idx):
        return self._get(idx)

    READS = None

    def get(self, idx):
        idx = tuple(canon(i) for i in idx)
        if LArr.READS is not None:
            LArr.READS.append((self, idx))
        for starts, lens, val in reversed(self.log):
            inside = True
            for i, s, n in zip(idx, starts, lens):
                if not _within(i, s, n):
                    inside = False
                    break
            if inside:
                off = tuple(canon(SI.lift(i) - s) for i, s in zip(idx, starts))
                v = _pick(val, off)
                if v is not MISS:
                    return v
        return self.base(idx)

    # ---- reading ----
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = key.index(Ellipsis)
            key = key[:p] + (slice(None),) * (self.ndim - len(key) + 1) + key[p + 1:]
        key = key + (slice(None),) * (self.ndim - len(key))
        if len(key) > self.ndim:
            raise IndexError("too many indices")
        out = []
        for k, n in zip(key, self.shape):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("slice step")
                lo = 0 if k.start is None else k.start
                hi = n if k.stop is None else k.stop
                if isinstance(lo, SR) or isinstance(hi, SR):
                    raise TypeError("slice indices must be integers")
                if isinstance(lo, int) and lo < 0:
                    lo = n + lo
                if isinstance(hi, int) and hi < 0:
                    hi = n + hi
                ln = canon(SI.lift(hi) - SI.lift(lo))
                # numpy clips; require the slice to be in range
                if not itrue(SI.lift(hi) <= n):
                    hi = n
                    ln = canon(SI.lift(hi) - SI.lift(lo))
                if isinstance(ln, SI):
                    if itrue(ln <= 0):
                        if sym.ientails(ln.z() == 0) is True:
                            learn_int_eq(ln, 0)
                        ln = 0
                elif ln < 0:
                    ln = 0
                out.append(("s", lo, ln))
            elif isinstance(k, (int, SI)) or type(k).__name__.startswith("int"):
                k = int(k) if not isinstance(k, SI) else k
                if isinstance(k, int) and k < 0:
                    k = n + k
                elif isinstance(k, SI):
                    if not itrue(k >= 0):
                        k = n + k
                if not (itrue(SI.lift(k) < n) and itrue(SI.lift(k) >= 0)):
                    raise IndexError("index %r out of bounds for size %r" % (k, n))
                out.append(("i", k, None))
            elif k is None:
                raise Unsupported("newaxis on symbolic array")
            elif isinstance(k, SR):
                raise IndexError("only integers, slices are valid indices")
            else:
                raise Unsupported("index %r" % (type(k),))
        return out

    def __getitem__(self, key):
        pick = key[0] if isinstance(key, tuple) and len(key) == 1 else key
        if hasattr(pick, "_picks"):
            return pick._picks(self)
        if isinstance(key, tuple) and any(k is None for k in key):
            if any(not (k is None or isinstance(k, slice) and k == slice(None)) for k in key):
                raise Unsupported("newaxis on symbolic array")
            shape, it = [], iter(self.shape)
            for k in key:
                shape.append(1 if k is None else next(it))
            shape += list(it)
            keep = [k for k, x in enumerate(key) if x is not None] + list(range(len(key), len(shape)))
            return LArr(shape, lambda o: self.get(tuple(o[k] for k in keep)))
        ks = self._parse(key)
        shape = tuple(n for t, lo, n in ks if t == "s")

        def idx(o):
            it = iter(o)
            return tuple(lo if t == "i" else _iadd(lo, next(it)) for t, lo, n in ks)
        if all(isinstance(n, int) for n in shape):
            if not shape:
                return self.get(idx(()))
            out = _np.empty(shape, dtype=object)
            for o in _np.ndindex(*shape):
                out[o] = self.get(idx(o))
            return out
        return LArr(shape, lambda o: self.get(idx(o)), integer=self.integer)

    def __setitem__(self, key, val):
        if not self.owned:
            raise Unsupported("write to a view or input array %s" % self.name)
        ks = self._parse(key)
        starts = tuple(lo for t, lo, n in ks)
        lens = tuple(1 if t == "i" else n for t, lo, n in ks)
        shape = tuple(n for t, lo, n in ks if t == "s")
        if isinstance(val, (list, tuple)):
            from .facade import toarr
            val = toarr(val)
        if isinstance(val, _np.ndarray):
            if all(isinstance(n, int) for n in shape):
                val = _np.broadcast_to(val, shape).copy()
                full = tuple(1 if t == "i" else n for t, lo, n in ks)
                val = val.reshape(full)
                v = val
            else:
                if val.ndim == 0:
                    v = val.item()
                else:
                    raise Unsupported("block write of symbolic extent")
        elif isinstance(val, LArr):
            src = val
            snap = list(val.log)
            if val.owned:
                frozen = LArr(val.shape, val._get)
                frozen.log = snap
                src = frozen
            pos = [k for k, (t, lo, n) in enumerate(ks) if t == "s"]
            v = lambda off: src.get(tuple(off[p] for p in pos))
        else:
            v = SR.lift(val)
            if v is None:
                raise Unsupported("write of %r" % (type(val),))
        self.log.append((starts, lens, v))

    def frozen(self):
        """The present contents, whatever is written later."""
        if not self.owned:
            return self
        r = LArr(self.shape, self._get, name=self.name, integer=self.integer)
        r.log = list(self.log)
        return r

    def copy(self):
        r = LArr(self.shape, self._get, owned=True, name=self.name)
        r.log = list(self.log)
        return r

    def transpose(self):
        return LArr(self.shape[::-1], lambda o: self.get(o[::-1]))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic array")

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic array")

    # ---- arithmetic ----
    def _arr_binop(self, a, b, op):
        from . import facade
        a, b = _lazied(a), _lazied(b)
        if op in ("matmul", "dot"):
            return _product(a, b)
        f = facade.OPF["__vc_" + {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "pow": "pow", "mod": "mod", "fdiv": "fdiv"}[op]]
        if isinstance(a, SymSparse) or isinstance(b, SymSparse):
            if op != "mul":
                raise Unsupported("sparse %s" % op)
            return a._lmul(b) if isinstance(a, SymSparse) else b._rmul(a)
        sa, sb = _shape(a), _shape(b)
        shape = _bshape(sa, sb)
        ga, gb = _getter(a, sa, shape), _getter(b, sb, shape)
        return LArr(shape, lambda o: f(ga(o), gb(o)))

    def __add__(self, o): return self._arr_binop(self, o, "add")
    def __radd__(self, o): return self._arr_binop(o, self, "add")
    def __sub__(self, o): return self._arr_binop(self, o, "sub")
    def __rsub__(self, o): return self._arr_binop(o, self, "sub")
    def __mul__(self, o): return self._arr_binop(self, o, "mul")
    def __rmul__(self, o): return self._arr_binop(o, self, "mul")
    def __truediv__(self, o): return self._arr_binop(self, o, "div")
    def __rtruediv__(self, o): return self._arr_binop(o, self, "div")
    def __neg__(self): return LArr(self.shape, lambda o: -self.get(o))

    def _aug(self, op, b):
        from . import facade
        r = facade.OPF[op](self, b)
        if not self.owned:
            raise Unsupported("in-place change of a view")
        frozen = LArr(self.shape, self._get)
        frozen.log = list(self.log)
        r = facade.OPF[op](frozen, b)
        self._get = r.get
        self.log = []
        return self

    def _emap1(self, f):
        return LArr(self.shape, lambda o: f(SR.lift(self.get(o))))

    def triu(self, k=0):
        def g(o):
            i, j = o
            d = SI.lift(j) - SI.lift(i)
            if itrue(SI.lift(d) >= k):
                return self.get(o)
            return SR.const(0)
        return LArr(self.shape, g)

    def norm(self, axis=None):
        if axis is None:
            raise Unsupported("norm of symbolic array")
        if axis not in (-1, self.ndim - 1) or not isinstance(self.shape[-1], int):
            raise Unsupported("norm axis")
        n = self.shape[-1]

        def g(o):
            t = SR.const(0)
            for c in range(n):
                v = SR.lift(self.get(tuple(o) + (c,)))
                t = t + v * v
            return ring.sqrt(t)
        return LArr(self.shape[:-1], g)

    def sum(self, axis=None):
        raise Unsupported("sum over a symbolic extent")

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self):
        return reshape(self, (-1,))

    def flatten(self):
        return reshape(self.frozen(), (-1,)).copy()

    def astype(self, *a, **k):
        return self.copy()

    def toarray(self):
        return self

    def any(self):
        raise Unsupported("any")

    def _cmp(self, o, f):
        from .pairsum import TArr
        o = _lazied(o)
        so = _shape(o)
        shape = _bshape(self.shape, so)
        ga, gb = _getter(self, self.shape, shape), _getter(o, so, shape)

        def num(v):
            return v if isinstance(v, (int, SI)) else SR.lift(v)
        return TArr(shape, lambda i: f(num(ga(i)), num(gb(i))))

    def __eq__(self, o): raise Unsupported("comparison of symbolic arrays")
    def __lt__(self, o): return self._cmp(o, lambda x, y: x < y)
    def __gt__(self, o): return self._cmp(o, lambda x, y: x > y)
    def __le__(self, o): return self._cmp(o, lambda x, y: x <= y)
    def __ge__(self, o): return self._cmp(o, lambda x, y: x >= y)
    __hash__ = object.__hash__

    def __repr__(self):
        return "LArr%s%s" % (self.name, self.shape)


def _lazied(x):
    """A list or range of symbolic length as an array."""
    from .facade import SymRange
    if isinstance(x, SymList):
        return x._to_lazy()
    if isinstance(x, SymRange):
        if x.step != 1:
            raise Unsupported("range step")
        return LArr((canon(SI.lift(x.hi) - SI.lift(x.lo)),), lambda o: canon(SI.lift(o[0]) + x.lo), integer=True)
    return x


def _product(a, b):
    """Product over a contracted extent of concrete size."""
    if isinstance(a, SymSparse) or isinstance(b, SymSparse):
        raise Unsupported("sparse product")
    sa, sb = _shape(a), _shape(b)
    if not sa or not sb or len(sa) > 2 or len(sb) > 2:
        raise Unsupported("product of shapes %s %s" % (sa, sb))
    n = sa[-1]
    if not isinstance(n, int) or not isinstance(sb[0], int):
        raise Unsupported("product over a symbolic extent")
    if n != sb[0]:
        raise ValueError("shapes %s and %s not aligned" % (sa, sb))
    ga = a.get if isinstance(a, LArr) else (lambda o: _pick(a, o))
    gb = b.get if isinstance(b, LArr) else (lambda o: _pick(b, o))

    def g(o):
        t = SR.const(0)
        for k in range(n):
            t = t + SR.lift(ga(tuple(o[:len(sa) - 1]) + (k,))) * SR.lift(gb((k,) + tuple(o[len(sa) - 1:])))
        return t
    return LArr(tuple(sa[:-1]) + tuple(sb[1:]), g)


def cross(a, b):
    sa, sb = _shape(a), _shape(b)
    shape = _bshape(sa, sb)
    ga, gb = _getter(a, sa, shape), _getter(b, sb, shape)

    def g(o):
        k = o[-1]
        if isinstance(k, SI):
            raise Unsupported("component of a cross product")
        p, q = o[:-1] + ((k + 1) % 3,), o[:-1] + ((k + 2) % 3,)
        return SR.lift(ga(p)) * SR.lift(gb(q)) - SR.lift(ga(q)) * SR.lift(gb(p))
    return LArr(shape, g)


def _iadd(a, b):
    r = SI.lift(a) + SI.lift(b)
    return r


def _within(i, s, n):
    """s <= i < s + n ?"""
    d = canon(SI.lift(i) - SI.lift(s))
    if isinstance(d, int) and isinstance(n, int):
        return 0 <= d < n
    return itrue(SI.lift(d) >= 0) and itrue(SI.lift(d) < n)


def _pick(val, off):
    if isinstance(val, SR):
        return val
    if callable(val) and not isinstance(val, _np.ndarray):
        return val(off)
    if isinstance(val, _np.ndarray):
        res = []
        for o, n in zip(off, val.shape):
            if isinstance(o, SI):
                for c in range(n):
                    if eq(o, c):
                        o = c
                        break
                else:
                    raise sym.Infeasible()
            res.append(int(o))
        return val[tuple(res)]
    return val


def _shape(x):
    if isinstance(x, LArr):
        return x.shape
    if isinstance(x, _np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return _np.asarray(x, dtype=object).shape
    return ()


def _same(a, b):
    d = SI.lift(a) - SI.lift(b)
    d = canon(d)
    if isinstance(d, int):
        return d == 0
    return sym.ientails(d.z() == 0) is True


def _bshape(sa, sb):
    n = max(len(sa), len(sb))
    sa = (1,) * (n - len(sa)) + tuple(sa)
    sb = (1,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(sa, sb):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif _same(x, y):
            out.append(x)
        else:
            raise Unsupported("shapes %s and %s may not match" % (sa, sb))
    return tuple(out)


def _getter(x, sx, shape):
    if not sx:
        v = x.item() if isinstance(x, _np.ndarray) else x
        return lambda o: v
    k = len(shape) - len(sx)
    if isinstance(x, (list, tuple)):
        x = _np.asarray(x, dtype=object)

    def g(o):
        idx = tuple(0 if isinstance(n, int) and n == 1 else i for i, n in zip(o[k:], sx))
        if isinstance(x, _np.ndarray):
            return _pick(x, idx)
        return x.get(idx)
    return g


def const(shape, v):
    shape = tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)
    return LArr(shape, lambda o: v, owned=True)


_un = [0]


def uninit(shape):
    shape = tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)
    _un[0] += 1
    k = _un[0]
    return LArr(shape, lambda o: ring.free("uninit%d[%s]" % (k, ",".join(map(ikey, o))), meta="uninit"), owned=True)


def sym_array(name, shape, pos=False):
    """An arbitrary input array: element = universally quantified real."""
    return LArr(tuple(shape), lambda o: ring.free("%s[%s]" % (name, ",".join(map(ikey, o))), pos=pos, meta=("elt", name, o)), name=name)


def sym_owned(name, shape, pos=False):
    a = sym_array(name, shape, pos)
    return LArr(a.shape, a._get, owned=True, name=name)


def _alen(a):
    return a.shape[0]


def concatenate(seq, axis=0):
    from .facade import toarr
    seq = [a if isinstance(a, LArr) else toarr(a) for a in seq]
    if axis < 0:
        axis += len(seq[0].shape)
    rest = [tuple(a.shape[:axis]) + tuple(a.shape[axis + 1:]) for a in seq]
    tot = seq[0].shape[axis]
    for a in seq[1:]:
        tot = tot + a.shape[axis] if not isinstance(tot, int) or not isinstance(a.shape[axis], SI) else a.shape[axis] + tot
    parts = []
    for a in seq:
        if isinstance(a, LArr) and a.owned:
            f = LArr(a.shape, a._get)
            f.log = list(a.log)
            a = f
        parts.append(a)

    def g(o):
        i = o[axis]
        for k, a in enumerate(parts):
            n = a.shape[axis]
            last = k == len(parts) - 1
            if last or itrue(SI.lift(i) < n):
                idx = o[:axis] + (canon(i),) + o[axis + 1:]
                return a.get(idx) if isinstance(a, LArr) else _pick(a, idx)
            i = canon(SI.lift(i) - SI.lift(n))
        raise Unsupported("index beyond concatenation")
    shape = tuple(seq[0].shape[:axis]) + (tot,) + tuple(seq[0].shape[axis + 1:])
    r = LArr(shape, g, owned=True)
    r.parts = parts
    return r


def append(a, b, axis=None):
    from .facade import toarr
    a = a if isinstance(a, LArr) else toarr(a)
    b = b if isinstance(b, LArr) else toarr(b)
    if axis is None:
        if len(a.shape) > 1 or len(b.shape) > 1:
            a, b = reshape(a, (-1,)), reshape(b, (-1,))
        axis = 0
    return concatenate([a, b], axis)


def reshape(a, shape):
    """Merging/splitting trailing dimensions of concrete size."""
    if not isinstance(a, LArr):
        return a.reshape(shape)
    if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1 and isinstance(a.shape[0], int) and any(isinstance(n, SI) for n in a.shape[1:]):
        return concatenate([reshape(a[k], (-1,)) for k in range(a.shape[0])])
    tail = 1
    for n in a.shape[1:]:
        if not isinstance(n, int):
            raise Unsupported("reshape")
        tail *= n
    total = a.shape[0] * tail
    shape = list(shape)
    for s in shape:
        if isinstance(s, SR):
            raise TypeError("'float' object cannot be interpreted as an integer")
    known = 1
    for n in shape[1:]:
        if not isinstance(n, int) or n < 0:
            raise Unsupported("reshape to %s" % (shape,))
        known *= n
    if isinstance(shape[0], int) and shape[0] == -1:
        q, r = divmod(SI.lift(total), known) if isinstance(total, SI) else divmod(total, known)
        if isinstance(r, SI) or r != 0:
            raise Unsupported("reshape")
        shape[0] = q
    elif not _same(shape[0] * known, total):
        raise ValueError("cannot reshape %s into %s" % (a.shape, shape))

    def g(o):
        flat = o[0]
        for i, n in zip(o[1:], shape[1:]):
            flat = flat * n + i
        return a.get(unflatten(flat, a.shape[1:]))
    return LArr(tuple(shape), g)


def unflatten(flat, tail):
    """flat index -> (row, c1, c2, ...) for concrete trailing sizes."""
    idx = []
    cur = canon(flat)
    for n in reversed(tail):
        if isinstance(cur, int):
            cur, r = divmod(cur, n)
        else:
            cc = SI(cur.c, cur.v)
            # split off the part that is a multiple of n
            if all(k % n == 0 for k in cc.v.values()):
                q, r = divmod(cc.c, n)
                cur = SI(q, {x: k // n for x, k in cc.v.items()}).norm()
            else:
                q, r = cc._divmod(n)
                for c in range(n):
                    if eq(r, c):
                        r = c
                        break
                else:
                    raise sym.Infeasible()
                cur = q
        idx.append(r)
    return (cur,) + tuple(reversed(idx))


def tile(a, reps):
    from .facade import toarr
    a = toarr(a)
    if isinstance(a, LArr):
        raise Unsupported("tile of symbolic array")
    if not isinstance(reps, tuple) or len(reps) != 2 or a.ndim != 1 or reps[1] != 1:
        raise Unsupported("tile")
    return LArr((reps[0], a.shape[0]), lambda o: _pick(a, (o[1],)))


def stack(x):
    """numpy.array of a list of arrays, one of them of symbolic shape."""
    if not isinstance(x, (list, tuple)) or not x or not all(isinstance(a, LArr) for a in x):
        raise Unsupported("array of symbolic arrays")
    for a in x[1:]:
        if a.ndim != x[0].ndim or not all(_same(p, q) for p, q in zip(a.shape, x[0].shape)):
            raise Unsupported("arrays of different shapes")
    # a copy: later writes to the arrays do not show
    src = [a.copy() for a in x]

    def g(o):
        for k in range(len(src) - 1):
            if eq(o[0], k):
                return src[k].get(tuple(o[1:]))
        return src[-1].get(tuple(o[1:]))
    return LArr((len(x),) + tuple(x[0].shape), g, owned=True)


# ---- comprehension lists over symbolic ranges -----------------------------------

class SymList:
    """[elt for binders]; pieces are plain elements ("e", x), one round of elements per
    index ("r", [(var, lo, hi)], [elts]), or the contents of an array ("a", array)."""
    _symiter = True

    def __init__(self, pieces, thunk=None):
        self._pcs = pieces
        self._arr = None              # contents once the list has been indexed
        self._thunk = thunk
        self._shared = False          # rows may belong to another list too
        self._gen = 0
        if sym.CTX is not None:
            sym.CTX.user.setdefault("symlists", []).append(self)

    @property
    def pieces(self):
        if self._arr is not None:
            return [("a", self._arr.frozen())]
        return self._pcs

    def __add__(self, o):
        self._shared = True
        return SymList(self.pieces + _pieces(o))

    def __radd__(self, o):
        self._shared = True
        return SymList(_pieces(o) + self.pieces)

    def _symlen(self):
        n = 0
        for p in self.pieces:
            n = n + (1 if p[0] == "e" else p[1].shape[0] if p[0] == "a" else _count(p))
        return n

    def _to_lazy(self):
        if self._arr is not None:
            return self._arr.copy()
        segs = []
        plain = True
        tails = set()
        for p in self.pieces:
            if p[0] == "e":
                segs.append((1, lambda t, x=p[1]: x))
                xs = [p[1]]
            elif p[0] == "a":
                plain = False
                segs.append((p[1].shape[0], lambda t, a=p[1]: a[t] if a.ndim > 1 else a.get((t,))))
                tails.add(tuple(p[1].shape[1:]))
                continue
            else:
                if len(p[1]) != 1 or not p[2]:
                    raise Unsupported("array of a nested comprehension")
                (var, lo, hi), xs = p[1][0], p[2]
                fs = [_instance(var, lo, x) for x in xs]
                if len(p) > 3 and p[3] is not None and any(_divided(x) for x in xs):
                    fs = [_again_at(p, k) for k in range(len(xs))]
                if len(xs) == 1:
                    segs.append((_count(p), fs[0]))
                else:
                    plain = False
                    segs.append((_count(p), lambda t, fs=fs: (lambda qr: fs[qr[1]](qr[0]))(unflatten(t, (len(fs),)))))
            for x in xs:
                tails.add(tuple(_row(x).shape) if isinstance(x, (list, tuple, _np.ndarray)) else ())
        n = 0
        for c, f in segs:
            n = n + c
        if len(tails) != 1:
            raise Unsupported("rows of different shapes")
        tail = tails.pop()

        def g(o):
            i = o[0]
            for k, (c, f) in enumerate(segs):
                if k == len(segs) - 1 or itrue(SI.lift(i) < c):
                    v = f(i)
                    return _pick(_row(v), tuple(o[1:])) if tail else v
                i = canon(SI.lift(i) - SI.lift(c))
        r = LArr((n,) + tail, g, owned=True)
        if plain:
            r.segs = segs
        return r

    # ---- use as a mutable list ----
    def _store(self):
        if self._arr is None:
            for p in self._pcs:
                xs = [p[1]] if p[0] == "e" else p[2] if p[0] == "r" else []
                if p[0] == "a":
                    self._shared = True
                if any(isinstance(x, (list, _np.ndarray, LArr)) for x in xs):
                    # rows are separate objects if the comprehension makes them anew
                    if self._thunk is None or len(self._pcs) != 1 or any(x is y for x, y in zip(xs, self._again())):
                        self._shared = True
            a = self._to_lazy()
            a.owner = self
            self._arr = a
        return self._arr

    def _again(self):
        r = listcomp(self._thunk)
        return r._pcs[0][2]

    def __getitem__(self, k):
        a = self._store()
        if isinstance(k, slice):
            self._shared = True
            r = a.frozen()[k]
            if isinstance(r, LArr):
                return SymList([("a", r)])
            return [list(x) if isinstance(x, _np.ndarray) else x for x in r]
        a._parse((k,))
        return _ListRow(self, self._gen, k) if a.ndim > 1 else a[k]

    def __setitem__(self, k, v):
        a = self._store()
        self._gen += 1
        if isinstance(k, slice):
            if isinstance(v, SymList):
                v._shared = True
                v = v._to_lazy()
            self._shared = True
            n = [q for q in a._parse((k,))][0][2]
            m = v.shape[0] if isinstance(v, (LArr, _np.ndarray)) else len(v)
            if not _same(n, m):
                raise Unsupported("slice assignment that may change the length of a list")
            if not (isinstance(n, int) and n == 0):
                a[k] = v.frozen() if isinstance(v, LArr) else v
            return
        if a.ndim > 1:
            self._shared = True
        a[k] = v

    def count(self, x):
        n = 0
        for p in self.pieces:
            if p[0] == "e":
                n = n + int(_equal_consts(p[1], x))
            elif p[0] == "r":
                k = sum(int(_equal_consts(y, x)) for y in p[2])
                n = n + _count((p[0], p[1], [0] * k)) if k else n
            else:
                # the same answer at every row
                _fresh[0] += 1
                k = SI.var("k%d" % _fresh[0])
                mark = sym.CTX.push(z3.And(k.z() >= 0, k.z() < SI.lift(p[1].shape[0]).z()))
                t = len(sym.CTX.trace)
                row = p[1][k]
                sym.CTX.pop(mark)
                if len(sym.CTX.trace) != t or _equal_consts(list(row) if isinstance(row, _np.ndarray) else row, x):
                    raise Unsupported("count in an array")
        return n


def _equal_consts(a, b):
    """a == b for values without variables (a number never equals a text)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_equal_consts(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    raise Unsupported("comparison of list elements")


class _ListRow:
    """x[k] of a list of rows: writes go to the list."""

    def __init__(self, owner, gen, *idx):
        self.owner, self.gen, self.idx = owner, gen, idx

    @property
    def a(self):
        if self.gen != self.owner._gen:
            raise Unsupported("row of a list that was changed since")
        return self.owner._arr

    def __len__(self):
        return self.a.shape[len(self.idx)]

    def __getitem__(self, k):
        idx = self.idx + (k,)
        if isinstance(k, slice) or len(idx) == self.a.ndim:
            return self.a[idx]
        return _ListRow(self.owner, self.gen, *idx)

    def __setitem__(self, k, v):
        if self.owner._shared:
            raise Unsupported("write to a row that may be shared")
        self.a[self.idx + (k,)] = v

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    def _to_arr(self):
        return self.a[self.idx]


def tolist(x):
    """list(x)"""
    if isinstance(x, LArr):
        return SymList([("a", x.frozen())])
    x._shared = True
    return SymList(list(x.pieces))


def _row(x):
    from .facade import toarr
    leaf = x
    while isinstance(leaf, (list, tuple)) and leaf:
        leaf = leaf[0]
    if isinstance(leaf, str):
        return _np.array(x, dtype=object)
    return x if isinstance(x, _np.ndarray) else toarr(x)


def _instance(var, lo, elt):
    from .rowmap import reindex
    if isinstance(elt, (int, str)):
        return lambda t: elt
    if isinstance(elt, SR):
        return lambda t: reindex(elt, var, SI.lift(t) + lo)
    if isinstance(elt, (list, tuple, _np.ndarray)):
        a = _row(elt)
        if isinstance(a, LArr):
            raise Unsupported("rows of symbolic length")

        def rows(t):
            out = _np.empty(a.shape, dtype=object)
            for o in _np.ndindex(*a.shape):
                out[o] = reindex(a[o], var, SI.lift(t) + lo)
            return out
        return rows
    if isinstance(elt, SI):
        def f(t):
            k = elt.v.get(var, 0)
            rest = SI(elt.c, {n: c for n, c in elt.v.items() if n != var}).norm()
            return rest + (SI.lift(t) + lo) * k if k else rest
        return f
    raise Unsupported("comprehension element %r" % (type(elt),))


def _count(p):
    if len(p[1]) != 1:
        raise Unsupported("length of a nested comprehension")
    var, lo, hi = p[1][0]
    return (hi - lo if not isinstance(lo, SI) else SI.lift(hi) - lo) * len(p[2])


def _pieces(o):
    if isinstance(o, SymList):
        o._shared = True
        return o.pieces
    return [("e", x) for x in o]


_binders = []
_fresh = [0]


def citer(it):
    """Iteration inside a comprehension."""
    from .facade import SymRange
    first = False
    if _choice:
        first = _choice[-1][2] == 0
        _choice[-1][2] += 1
    if isinstance(it, SymRange):
        if not _binders:
            raise Unsupported("comprehension over a symbolic range")
        if _force and _force[-1]:
            return [_force[-1].pop()]
        if it.step != 1:
            raise Unsupported("range step")
        _fresh[0] += 1
        var = "k%d" % _fresh[0]
        _binders[-1].append((var, it.lo, it.hi))
        k = SI.var(var)
        if sym.CTX is not None:
            _marks[-1].append(sym.CTX.push(z3.And(k.z() >= SI.lift(it.lo).z(), k.z() < SI.lift(it.hi).z())))
        return [k]
    if isinstance(it, SymList):
        parts = _parts(it)
        if len(parts) > 1 and first:
            # outermost: one run of the comprehension for each part of the list
            _choice[-1][1] = len(parts)
            it = parts[_choice[-1][0]]
        else:
            it = it._to_lazy()
    if isinstance(it, LArr) and isinstance(it.shape[0], SI):
        if not _binders:
            raise Unsupported("comprehension over a symbolic array")
        k = citer(SymRange(0, it.shape[0]))[0]
        return [it[k]]
    from . import pairsum
    if isinstance(it, (pairsum.Pairs, pairsum.PSeq)):
        if not first or not _choice or _pairs[-1]:
            raise Unsupported("nested comprehension over pairs")
        _pairs[-1].append(pairsum.observed(it))
        return _pairs[-1][0].items()
    if getattr(it, "_lazy", False) or getattr(it, "_symiter", False):
        raise Unsupported("comprehension over a symbolic array")
    return it


_pairs = []


def cif(c):
    """Filter of a comprehension over a symbolic range: kept as a formula."""
    if _pairs and _pairs[-1]:
        _pairs[-1].append("filter")
        return bool(c)
    if isinstance(c, sym.SBool) and c.z is not None and _binders and any(not isinstance(b, tuple) or mentions(c.z, b[0]) for b in _binders[-1]):
        _filters[-1].append(c.z)
        return True
    return c


def mentions(f, name):
    """Does the formula contain the integer name (also inside a remainder's name)?"""
    return re.search(r"(?<![\w])%s(?![\w])" % re.escape(name), f.sexpr()) is not None


_filters = []
_marks = []


_choice = []


def _parts(x):
    """Consecutive parts of a list, each an array of symbolic length or a plain list."""
    out = []
    for p in x.pieces:
        if p[0] == "e":
            if out and isinstance(out[-1], list):
                out[-1].append(p[1])
            else:
                out.append([p[1]])
        else:
            out.append(SymList([p])._to_lazy())
    return out


def listcomp(thunk):
    c = [0, None, 0]
    r = _listcomp(thunk, c)
    if c[1] is None:
        return r
    pieces = _pieces(r)
    for k in range(1, c[1]):
        pieces = pieces + _pieces(_listcomp(thunk, [k, None, 0]))
    return SymList(pieces)


def _listcomp(thunk, choice):
    _binders.append([])
    _filters.append([])
    _marks.append([])
    _choice.append(choice)
    _pairs.append([])
    try:
        out = thunk()
    finally:
        pr = _pairs.pop()
        b = _binders.pop()
        f = _filters.pop()
        _choice.pop()
        for m in reversed(_marks.pop()):
            sym.CTX.pop(m)
    if pr:
        from . import pairsum
        if b or f or len(out) > 1 or choice[1] is not None:
            raise Unsupported("comprehension over pairs and more")
        key = pr[0].key
        if len(pr) > 1 or len(out) != len(pr[0].items()):
            _fresh[0] += 1
            key = ("filtered", key, _fresh[0])
        return pairsum.PSeq(key, bool(out), out[0] if out else None)
    if not b:
        return out
    if f:
        if len(b) != 1 or len(out) != 1 or choice[1] is not None:
            raise Unsupported("nested comprehension with a filter")
        from . import sums
        return sums.Filtered(b[0], z3.And(*f) if len(f) > 1 else f[0], out[0])
    return SymList([("r", b, out, thunk if choice[1] is None else None)], thunk if choice[1] is None else None)


_force = []


def _divided(x):
    """Does the element contain a quotient of the index?"""
    if isinstance(x, SI):
        return any("!" in n for n in x.v)
    x = SR.lift(x) if not isinstance(x, (list, tuple, str, _np.ndarray, LArr)) else None
    return x is not None and any(re.search(r"q\d+!\d", ring.GENS[g].name) for g in x.gens())


def _again_at(p, k):
    """Element k of the comprehension with its index replaced by running it again."""
    (var, lo, hi), thunk = p[1][0], p[3]

    def at(j):
        _force.append([j])
        try:
            out = _listcomp(thunk, [0, None, 0])
        finally:
            _force.pop()
        if not isinstance(out, list) or len(out) != len(p[2]):
            raise Unsupported("comprehension")
        return out[k]

    def f(t):
        # the names it reads must not have changed since
        v = SI.var(var)
        mark = sym.CTX.push(z3.And(v.z() >= SI.lift(lo).z(), v.z() < SI.lift(hi).z()))
        try:
            a, b = at(v), p[2][k]
        finally:
            sym.CTX.pop(mark)
        if not ((_same(a, b) if isinstance(a, (int, SI)) else (SR.lift(a) - SR.lift(b)).is_zero())):
            raise Unsupported("a comprehension read later differs")
        return at(canon(SI.lift(t) + lo))
    return f


class SymSparse:
    """Sparse matrix given by affine runs: entry (row(t), col(t)) = val(t)."""
    _lazy = True
    __array_ufunc__ = None

    def __init__(self, data, row, col, shape, runs=None):
        self.shape = tuple(shape)
        if runs is not None:
            self.runs = runs
            return
        segs = [getattr(x, "segs", None) for x in (data, row, col)]
        if any(s is None for s in segs):
            raise Unsupported("sparse matrix from general arrays")
        # common refinement of the segment boundaries
        bounds = []
        for s in segs:
            acc = 0
            for c, f in s:
                acc = acc + c
                bounds.append(acc)
        uniq = []
        for b in bounds:
            if not any(_same(b, u) for u in uniq):
                uniq.append(b)
        import functools

        def cmp(x, y):
            d = SI.lift(x) - SI.lift(y)
            if isinstance(d, int):
                return d
            if sym.ientails(d.z() <= 0):
                return -1
            if sym.ientails(d.z() >= 0):
                return 1
            raise Unsupported("segment boundaries cannot be ordered")
        uniq.sort(key=functools.cmp_to_key(cmp))

        def find(s, start):
            """segment function covering positions from `start`."""
            acc = 0
            for c, f in s:
                nxt = acc + c
                d = SI.lift(start) - SI.lift(nxt)
                if (isinstance(d, int) and d < 0) or (isinstance(d, SI) and not sym.ientails(d.z() >= 0)):
                    return f, acc
                acc = nxt
            raise Unsupported("segments")
        self.runs = []
        prev = 0
        for b in uniq:
            n = canon(SI.lift(b) - SI.lift(prev))
            if not (isinstance(n, int) and n == 0):
                fs = [find(s, prev) for s in segs]
                loc = [(lambda t, f=f, a=a, p=prev: f(canon(SI.lift(t) + p - SI.lift(a)))) for f, a in fs]
                probe = SI.var("t!")
                r, c = loc[1](probe), loc[2](probe)
                roff, coff = canon(SI.lift(r) - probe), canon(SI.lift(c) - probe)
                for q in (roff, coff):
                    if isinstance(q, SI) and "t!" in q.v:
                        raise Unsupported("sparse run is not affine")
                v = loc[0](probe)
                if isinstance(v, SI):
                    raise Unsupported("sparse values")
                self.runs.append((n, roff, coff, SR.lift(v)))
            prev = b

    def transpose(self):
        return SymSparse(None, None, None, self.shape[::-1], [(n, c, r, v) for n, r, c, v in self.runs])
    T = property(transpose)

    def _lmul(self, m):
        if isinstance(m, SymSparse):
            raise Unsupported("sparse product")

        def g(o):
            i = o[0]
            tot = SR.const(0)
            for n, ro, co, v in self.runs:
                t = canon(SI.lift(i) - SI.lift(ro))
                if _within(t, 0, n):
                    tot = tot + v * m.get((canon(SI.lift(t) + co),) + tuple(o[1:]))
            return tot
        return LArr((self.shape[0],) + tuple(m.shape[1:]), g)

    def _rmul(self, m):
        def g(o):
            i, j = o
            tot = SR.const(0)
            for n, ro, co, v in self.runs:
                t = canon(SI.lift(j) - SI.lift(co))
                if _within(t, 0, n):
                    tot = tot + m.get((i, canon(SI.lift(t) + ro))) * v
            return tot
        return LArr((m.shape[0], self.shape[1]), g)

    def _arr_binop(self, a, b, op):
        if op not in ("mul", "matmul", "dot"):
            raise Unsupported("sparse %s" % op)
        return a._lmul(b) if isinstance(a, SymSparse) else b._rmul(a)

    def __mul__(self, o):
        if isinstance(o, LArr):
            return self._lmul(o)
        raise Unsupported("sparse product")

    def __rmul__(self, o):
        if isinstance(o, LArr):
            return self._rmul(o)
        raise Unsupported("sparse product")
    dot = __mul__
    __matmul__ = __mul__


# ---- loop cut ---------------------------------------------------------------------

class BodyEnd(Exception):
    """End of the generic iteration."""


class LoopCut:
    """for x in <symbolic iterable>: either one arbitrary iteration (then the
    path ends) or, with `after`, the state described by the loop's invariant."""

    def __init__(self, on_enter=None, on_after=None, havoc=False, on_end=None):
        self.havoc = havoc
        self.on_end = on_end
        self.on_enter = on_enter
        self.on_after = on_after
        self.stack = []

    def __call__(self, it, carried=(), liveout=(), loop=None):
        from .facade import SymRange, HAVOC
        if carried and not (self.havoc if not isinstance(self.havoc, dict) else all(c in self.havoc for c in carried)):
            raise Unsupported("loop carries %s" % (carried,))
        HAVOC.clear()
        if isinstance(it, SymRange):
            binders = [("L%d" % len(self.stack), it.lo, it.hi)]
            elt = SI.var(binders[0][0])
        elif isinstance(it, SymList) and len(it.pieces) == 1 and it.pieces[0][0] == "r" and len(it.pieces[0][2]) == 1:
            binders = it.pieces[0][1]
            elt = it.pieces[0][2][0]
        else:
            raise Unsupported("loop over %r" % (type(it),))
        enter = sym.CTX.decide("generic iteration")
        if enter:
            for n, lo, hi in binders:
                v = SI.var(n)
                sym.iassume(z3.And(v.z() >= SI.lift(lo).z(), v.z() < SI.lift(hi).z()))
            if not sym.ifeasible():
                raise sym.Infeasible()
            self.stack.append((binders, elt))
            snap = _snapshot()
            if self.on_enter:
                self.on_enter(self, binders, elt)
            for c in carried:
                HAVOC[loop, c] = self.havoc[c] if isinstance(self.havoc, dict) else True
            yield elt
            _check_snapshot(snap)
            if self.on_end:
                self.on_end(self, binders, elt)
            raise BodyEnd()
        if liveout:
            raise Unsupported("loop variables %s are used after the loop" % (liveout,))
        if self.on_after:
            self.on_after(self, binders, elt)
        else:
            raise Unsupported("no invariant for this loop")


def owned_arrays():
    """Arrays of symbolic shape the code has created (or been given to fill)."""
    return [a for a in sym.CTX.user.get("owned", []) if any(isinstance(n, SI) for n in a.shape)]


def _snapshot():
    from . import facade
    snap = []
    for ref in facade.CREATED:
        a = ref
        snap.append((a, a.copy()))
    return snap


def _check_snapshot(snap):
    """Ordinary arrays that live across iterations must not carry values."""
    for a, old in snap:
        for x, y in zip(a.ravel(), old.ravel()):
            if x is not y:
                y = SR.lift(y)
                if y is None or not (len(y.t) == 1 and all(ring.GENS[g].meta == "uninit" for g in y.gens()) and y.gens()):
                    raise Unsupported("an array carries values between iterations")
