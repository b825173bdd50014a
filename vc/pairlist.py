"""Lists of pairs gathered by a loop over the first bead (periodic neighbour search).

The observed pair is (p, q) = pairsum.OBS[0].  In

    for i in range(n): picked = where(condition on all beads); acc += [... for j in picked]

the body is run for i = p with every list made from the picked beads known at q
(Chosen: key, present, value there; equal keys mean the same beads in the same order).
An accumulator starts empty and gains one such list in each iteration, so what it holds
for (p, q) is what iteration p adds for q, and accumulators that gain lists of equal
keys in the arbitrary iteration p are aligned.

In  for pair in acc:  the body is run for the observed pair, if it is there; positions
counted along are known only as its place.  Lists and arrays it adds to start empty; each
iteration adds to them at its own pair only, so afterwards they are lists known at the pair,
with what that iteration added; the same number must be added to all of them.  The
lists are sealed: any later use but turning one as a whole into an array is refused."""
import sys
import numpy as np
from . import ring, sym, lazyarr, pairsum, retry
from .ring import SR, Unsupported
from .sym import SI
from .lazyarr import LArr, canon
from .pairsum import PSeq

_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Place:
    """Position of the observed pair in the lists of this key."""
    def __init__(self, key, off=0):
        self.key, self.off = key, off

    def __add__(self, k):
        if type(k) is not int:
            raise Unsupported("position of a pair")
        return Place(self.key, self.off + k)
    __radd__ = __add__

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("position of a pair")

    def __bool__(self):
        raise Unsupported("position of a pair")

    def _no(self, *a):
        raise Unsupported("position of a pair")
    __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = __sub__ = __mul__ = _no
    __hash__ = object.__hash__


class Chosen(PSeq):
    def __init__(self, key, present, val, of=None):
        PSeq.__init__(self, key, present, val)
        self.of = of            # positions in the lists of this key

    def _each(self, f):
        return Chosen(self.key, self.present, f(self.val) if self.present else None)

    def _truth(self, f):
        return Truths(self.key, self.present, bool(f(self.val)) if self.present else None)

    def _scalar(self, o):
        if isinstance(o, (np.ndarray, LArr, PSeq, list, tuple)):
            raise Unsupported("arithmetic on a list of pairs")
        return o

    def _arr_binop(self, a, b, op):
        from . import facade
        f = facade.OPF["__vc_" + op]
        x, y = (a, b) if a is self else (b, a)
        if isinstance(y, Chosen):
            if y.key != x.key:
                raise Unsupported("lists that are not aligned")
            return Chosen(self.key, self.present, f(a.val, b.val) if self.present else None)
        self._scalar(y)
        return self._each(lambda v: f(v, b) if a is self else f(a, v))

    def __add__(self, o): return self._arr_binop(self, o, "add")
    def __radd__(self, o): return self._arr_binop(o, self, "add")
    def __sub__(self, o): return self._arr_binop(self, o, "sub")
    def __rsub__(self, o): return self._arr_binop(o, self, "sub")
    def __mul__(self, o): return self._arr_binop(self, o, "mul")
    def __rmul__(self, o): return self._arr_binop(o, self, "mul")
    def __truediv__(self, o): return self._arr_binop(self, o, "div")

    def __lt__(self, o): return self._truth(lambda v: v < self._scalar(o))
    def __le__(self, o): return self._truth(lambda v: v <= self._scalar(o))
    def __gt__(self, o): return self._truth(lambda v: v > self._scalar(o))
    def __ge__(self, o): return self._truth(lambda v: v >= self._scalar(o))

    def norm(self, axis=None):
        if axis not in (1, -1):
            raise Unsupported("norm of a list of pairs")
        return self._each(lambda v: ring.sqrt(sum((SR.lift(x) * x for x in v), SR.const(0))))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, Place):
            if k.key != self.key or k.off != 0:
                raise Unsupported("another place of a list of pairs")
            if not self.present:
                raise Unsupported("place of a pair that is not there")
            return self.val
        if isinstance(k, Truths):
            if k.key != self.key:
                raise Unsupported("lists that are not aligned")
            return Chosen((k.key, "where", k.uid), self.present and k.val, self.val)
        if isinstance(k, Chosen) and k.of is not None:
            if k.of != self.key:
                raise Unsupported("lists that are not aligned")
            return Chosen(k.key, k.present, self.val if k.present else None)
        raise Unsupported("index into a list of pairs")

    def _picks(self, arr):
        """Rows of an array at the chosen beads."""
        if self.of is not None:
            raise Unsupported("positions of another list")
        return Chosen(self.key, self.present, arr[self.val] if self.present else None)


class Truths(Chosen):
    def __init__(self, key, present, val):
        Chosen.__init__(self, key, present, val)
        self.uid = uid()

    def where(self, *xy):
        if xy:
            raise Unsupported("where on a list of pairs")
        yes = bool(self.present and self.val)
        return (Chosen((self.key, "where", self.uid), yes, Place(self.key) if yes else None, of=self.key),)

    def _picks(self, arr):
        raise Unsupported("truth values of a list of pairs")


def first(t):
    """where(t) for a condition on every bead."""
    q = pairsum.OBS[0][1]
    if "uid" not in t.__dict__:
        t.uid = uid()
    yes = t.truth((q,))
    return (Chosen(("beads", t.uid), yes, q if yes else None),)


class Acc:
    """An accumulator in the arbitrary iteration."""
    _lazy = True
    __array_ufunc__ = None

    def __init__(self, shape=None):
        self.added = []
        self.tail = shape

    def plus(self, x):
        if not isinstance(x, PSeq):
            raise Unsupported("an accumulator gains a %s" % type(x).__name__)
        r = Acc(self.tail)
        r.added = self.added + [x]
        return r

    def _aug(self, op, b):
        if op not in ("__vc_iadd", "__vc_add"):
            raise Unsupported("accumulator")
        return self.plus(b)

    def _arr_binop(self, a, b, op):
        if a is self and op == "add" and self.tail is None:
            return self.plus(b)
        raise Unsupported("accumulator")

    def __add__(self, b):
        if self.tail is not None:
            raise Unsupported("accumulator")
        return self.plus(b)
    __iadd__ = __add__

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("%s of an accumulator" % n)


class Mark:
    def __init__(self, seq=None):
        self.seq = seq

    def __lt__(self, o):
        raise Unsupported("order of a list of pairs")

    def __getattr__(self, n):
        raise Unsupported("element of a list of pairs") if not n.startswith("__") else AttributeError(n)


def concat(seq, plain, axis=0):
    seq = list(seq)
    if any(isinstance(x, (Acc, PSeq)) for x in seq):
        if len(seq) != 2 or axis != 0 or not isinstance(seq[0], Acc) or seq[0].tail is None:
            raise Unsupported("concatenation of lists of pairs")
        return seq[0].plus(seq[1])
    if any(isinstance(y, Mark) for x in seq if isinstance(x, list) for y in x):
        raise Unsupported("concatenation of lists of pairs")
    return plain(seq, axis)


class Rule:
    def __init__(self, n):
        self.n = n
        self.reset()

    def reset(self):
        self.sealed = []
        self.inside = False
        self.met = 0

    def array(self, x, plain, *a, **k):
        """numpy.array of what the loops left."""
        if isinstance(x, PSeq):
            return x
        if isinstance(x, list) and any(isinstance(y, Mark) for y in x):
            if not any(x is y for y in self.sealed) or len(x) != 2 or x[0].seq is None or x[1].seq is not None:
                raise Unsupported("part of a list of pairs")
            return x[0].seq
        return plain(x, *a, **k)

    def __call__(self, it, carried=(), liveout=(), loop=None):
        from . import facade
        if self.inside:
            raise Unsupported("nested loops over beads")
        if isinstance(it, facade.SymRange):
            if it.step != 1 or canon(SI.lift(it.lo)) != 0 or canon(SI.lift(it.hi) - self.n) != 0:
                raise Unsupported("loop over some of the beads")
            return self.outer(carried, liveout, loop)
        if isinstance(it, PSeq):
            return self.inner(it, carried, liveout, loop)
        raise Unsupported("loop over %r" % (type(it),))

    def kept(self, env, but=()):
        return [(v, list(v)) for c, v in env.items() if isinstance(v, list)] + \
            [(v, v.copy()) for c, v in env.items() if isinstance(v, np.ndarray)] + \
            [(v, dict(v)) for c, v in env.items() if isinstance(v, dict)] + \
            [(v, len(v.log)) for v in sym.CTX.user.get("owned", [])]

    def unchanged(self, kept):
        for v, old in kept:
            if not (len(v.log) == old if isinstance(v, LArr) else list(v) == list(old) and all(retry.same(v[k], old[k]) for k in v) if isinstance(v, dict)
                    else retry.same(v, old)):
                raise Unsupported("a loop over beads writes something it does not assign")

    def outer(self, carried, liveout, loop):
        from . import facade
        env = dict(sys._getframe(1).f_locals)
        self.met += 1
        accs = {}
        for c in carried:
            v = env.get(c)
            if isinstance(v, list) and not v:
                accs[c] = Acc()
            elif isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[0] == 0:
                accs[c] = Acc(v.shape[1:])
            else:
                raise Unsupported("loop carries %s" % c)
            facade.HAVOC[loop, c] = lambda old, v=accs[c]: v
        kept = self.kept(env)
        self.inside = True
        yield pairsum.OBS[0][0]
        self.inside = False
        self.unchanged(kept)
        env = sys._getframe(1).f_locals
        for c in set(liveout):
            if c not in accs:
                facade.AFTER[loop, c] = retry.UNKNOWN
                continue
            x = env[c]
            if not isinstance(x, Acc) or len(x.added) != 1:
                raise Unsupported("%s does not gain one list in each iteration" % c)
            x = x.added[0]
            facade.AFTER[loop, c] = Chosen(("loop", loop, x.key), x.present, x.val)

    def inner(self, it, carried, liveout, loop):
        from . import facade
        env = dict(sys._getframe(1).f_locals)
        self.met += 1
        key, uk = it.key, ("pairs", loop, it.key, uid())
        empty = {c for c in carried if isinstance(env.get(c), np.ndarray) and env[c].ndim == 2 and env[c].shape[0] == 0}
        counters = {c for c in carried if type(env.get(c)) is int and env[c] == 0}
        if set(carried) - empty - counters:
            raise Unsupported("loop carries %s" % (tuple(carried),))
        lists, seen = [], set()
        for v in env.values():
            if isinstance(v, list) and not v and id(v) not in seen:
                seen.add(id(v))
                lists.append(v)
        kept = [(v, old) for v, old in self.kept(env) if id(v) not in seen]
        if it.present:
            for c in counters:
                facade.HAVOC[loop, c] = lambda old: Place(key)
            self.inside = True
            yield it.val
            self.inside = False
            self.unchanged(kept)
            env = sys._getframe(1).f_locals
            for c in counters:
                if not isinstance(env[c], Place) or env[c].key != key or env[c].off != 1:
                    raise Unsupported("%s does not count the pairs" % c)
            for v in lists:
                if len(v) > 1:
                    raise Unsupported("a pair adds more than one entry")
            for c in empty:
                if not isinstance(env[c], np.ndarray) or env[c].shape[0] > 1:
                    raise Unsupported("a pair adds more than one entry")
        for v in lists:
            seq = Chosen(uk, bool(v), v[0] if v else None)
            v[:] = [Mark(seq), Mark()]
            self.sealed.append(v)
        for c in liveout:
            if c in empty:
                x = env[c]
                facade.AFTER[loop, c] = Chosen(uk, len(x) > 0, x[0] if len(x) else None)
            else:
                facade.AFTER[loop, c] = retry.UNKNOWN
