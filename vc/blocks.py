"""Matrices of symbolic size as blocks of non-commuting symbols.

A BArr is partitioned at symbolic cut points; each block is a polynomial in
non-commuting atoms (blocks of an arbitrary matrix, inverses, blocks of an
arbitrary vector).  The only rewriting used is x * inv(x) = inv(x) * x = 1 and
the transpose rule the precondition gives.  Two blocks with equal normal forms
are equal for every size of the parts, empty parts included."""
from fractions import Fraction
from . import sym
from .ring import Unsupported, SR
from .sym import SI
from .lazyarr import canon


class Algebra:
    def __init__(self):
        self.rules = {}         # (atom, atom) -> poly
        self.tr = {}            # atom -> (sign, atom)
        self.n = 0
        self.invof = {}

    def norm(self, p):
        out = {}
        todo = list(p.items())
        steps = 0
        while todo:
            w, c = todo.pop()
            steps += 1
            if steps > 200000:
                raise Unsupported("block rewriting does not terminate")
            for k in range(len(w) - 1):
                r = self.rules.get((w[k], w[k + 1]))
                if r is not None:
                    for rw, rc in r.items():
                        todo.append((w[:k] + rw + w[k + 2:], c * rc))
                    break
            else:
                v = out.get(w, 0) + c
                if v:
                    out[w] = v
                else:
                    out.pop(w, None)
        return out

    def mul(self, p, q):
        out = {}
        for a, x in p.items():
            for b, y in q.items():
                out[a + b] = out.get(a + b, 0) + x * y
        return self.norm(out)

    def add(self, p, q, s=1):
        out = dict(p)
        for w, c in q.items():
            v = out.get(w, 0) + s * c
            if v:
                out[w] = v
            else:
                out.pop(w, None)
        return out

    def transpose(self, p):
        out = {}
        for w, c in p.items():
            nw = []
            for a in reversed(w):
                if a not in self.tr:
                    raise Unsupported("transpose of %s is not known" % (a,))
                s, b = self.tr[a]
                c = c * s
                nw.append(b)
            nw = tuple(nw)
            out[nw] = out.get(nw, 0) + c
        return self.norm(out)

    def inv(self, p):
        key = tuple(sorted(p.items()))
        if key in self.invof:
            return self.invof[key]
        if len(p) == 1 and () in p:
            return {(): 1 / Fraction(p[()])}
        lead = [w for w in p if len(w) == 1 and not any(w[0] in v for v in p if v != w)]
        if not lead:
            raise Unsupported("inverse of %s" % (p,))
        lead = sorted(lead)[0]
        a, c = lead[0], Fraction(p[lead])
        rest = {w: x for w, x in p.items() if w != lead}
        self.n += 1
        t = ("inv", self.n)
        self.rules[a, t] = self.add({(): 1 / c}, {w + (t,): x for w, x in rest.items()}, -1 / c)
        self.rules[t, a] = self.add({(): 1 / c}, {(t,) + w: x for w, x in rest.items()}, -1 / c)
        try:
            pt = self.transpose(p)
        except Unsupported:
            pt = None
        if pt == p:
            self.tr[t] = (1, t)
        elif pt is not None and self.add(pt, p) == {}:
            self.tr[t] = (-1, t)
        self.invof[key] = {(t,): Fraction(1)}
        return self.invof[key]


def same_int(a, b):
    d = canon(SI.lift(a) - SI.lift(b))
    if isinstance(d, SI):
        return not d.v and d.c == 0
    return d == 0


class BArr:
    """rc, cc: cumulative cut points (first 0).  b[i][j]: polynomial."""
    _lazy = True
    __array_ufunc__ = None
    __array_priority__ = 6000

    def __init__(self, alg, rc, cc, b, owned=False, track=None):
        self.alg, self.rc, self.cc, self.b, self.owned = alg, list(rc), list(cc), b, owned
        self.track = track          # list that records writes to an input

    @property
    def shape(self):
        return (self.rc[-1], self.cc[-1]) if self.cc is not None else (self.rc[-1],)

    ndim = 2

    def _find(self, cuts, k, n):
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise Unsupported("block index %r" % (k,))

        def loc(v, dflt):
            if v is None:
                return dflt
            if isinstance(v, SR):
                raise TypeError("slice indices must be integers")
            for i, c in enumerate(cuts):
                if same_int(c, v):
                    return i
            raise Unsupported("slice bound %r is not a cut point" % (v,))
        lo, hi = loc(k.start, 0), loc(k.stop, len(cuts) - 1)
        # several cut points may coincide; a slice between equal points is empty
        if hi < lo:
            raise Unsupported("reversed slice")
        return lo, hi

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        if len(key) != 2:
            raise IndexError("too many indices")
        return self._find(self.rc, key[0], 0), self._find(self.cc, key[1], 0)

    def __getitem__(self, key):
        (r0, r1), (c0, c1) = self._key(key)
        return BArr(self.alg, [canon(SI.lift(x) - self.rc[r0]) for x in self.rc[r0:r1 + 1]], [canon(SI.lift(x) - self.cc[c0]) for x in self.cc[c0:c1 + 1]],
                    [row[c0:c1] for row in self.b[r0:r1]])

    def __setitem__(self, key, val):
        if not self.owned:
            if self.track is None:
                raise Unsupported("write to a block view")
            self.track.append(key)
        (r0, r1), (c0, c1) = self._key(key)
        if not isinstance(val, BArr) or len(val.b) != r1 - r0 or (val.b and len(val.b[0]) != c1 - c0):
            raise Unsupported("block write")
        for x, y in zip(val.rc, self.rc[r0:r1 + 1]):
            if not same_int(x, SI.lift(y) - self.rc[r0]):
                raise ValueError("could not broadcast block")
        for x, y in zip(val.cc, self.cc[c0:c1 + 1]):
            if not same_int(x, SI.lift(y) - self.cc[c0]):
                raise ValueError("could not broadcast block")
        for i in range(r1 - r0):
            for j in range(c1 - c0):
                self.b[r0 + i][c0 + j] = dict(val.b[i][j])

    def copy(self):
        return BArr(self.alg, self.rc, self.cc, [[dict(x) for x in r] for r in self.b], owned=True)

    def transpose(self):
        return BArr(self.alg, self.cc, self.rc, [[self.alg.transpose(self.b[i][j]) for i in range(len(self.b))] for j in range(len(self.cc) - 1)])

    T = property(transpose)

    def _chk(self, a, b):
        if len(a) != len(b) or not all(same_int(x, y) for x, y in zip(a, b)):
            raise Unsupported("block partitions differ")

    def _arr_binop(self, a, b, op):
        A = self.alg
        if op in ("dot", "matmul"):
            if not (isinstance(a, BArr) and isinstance(b, BArr)):
                raise Unsupported("block product")
            self._chk(a.cc, b.rc)
            out = []
            for i in range(len(a.rc) - 1):
                row = []
                for j in range(len(b.cc) - 1):
                    t = {}
                    for k in range(len(b.rc) - 1):
                        t = A.add(t, A.mul(a.b[i][k], b.b[k][j]))
                    row.append(A.norm(t))
                out.append(row)
            return BArr(A, a.rc, b.cc, out)
        if op in ("add", "sub"):
            if not (isinstance(a, BArr) and isinstance(b, BArr)):
                raise Unsupported("block sum")
            self._chk(a.rc, b.rc)
            self._chk(a.cc, b.cc)
            s = 1 if op == "add" else -1
            return BArr(A, a.rc, a.cc, [[A.add(x, y, s) for x, y in zip(p, q)] for p, q in zip(a.b, b.b)], owned=True)
        if op == "mul":
            m, k = (a, b) if isinstance(a, BArr) else (b, a)
            k = SR.lift(k)
            if k is None or not k.is_const():
                raise Unsupported("block scaling")
            c = k.cval()
            return BArr(A, m.rc, m.cc, [[{w: x * c for w, x in p.items()} if c else {} for p in r] for r in m.b], owned=True)
        raise Unsupported("block %s" % op)

    def __neg__(self):
        return self._arr_binop(self, -1, "mul")

    def __add__(self, o): return self._arr_binop(self, o, "add")
    def __sub__(self, o): return self._arr_binop(self, o, "sub")
    def __matmul__(self, o): return self._arr_binop(self, o, "dot")
    dot = __matmul__

    def _aug(self, op, b):
        from . import facade
        if not self.owned:
            if self.track is None:
                raise Unsupported("in-place change of a block view")
            self.track.append(op)
        r = facade.OPF[op](self, b)
        self.b = r.b
        return self

    def inverse(self):
        if len(self.b) != 1 or len(self.b[0]) != 1:
            raise Unsupported("inverse of a matrix of several blocks")
        return BArr(self.alg, self.rc, self.cc, [[self.alg.inv(self.b[0][0])]])


def matrix(alg, name, cuts, sign):
    """An arbitrary matrix with block(i,j)^T = sign[i]*sign[j]*block(j,i)."""
    n = len(cuts) - 1
    for i in range(n):
        for j in range(n):
            alg.tr[name, i, j] = (sign[i] * sign[j], (name, j, i))
    track = []
    return BArr(alg, cuts, cuts, [[{((name, i, j),): Fraction(1)} for j in range(n)] for i in range(n)], track=track)


def vector(alg, name, cuts):
    return BArr(alg, cuts, [0, 1], [[{((name, i),): Fraction(1)}] for i in range(len(cuts) - 1)])
