"""Loop rule for loops that try again until something is accepted.

A while loop, or a counted loop that breaks out early, is cut to one arbitrary try.
The try starts from the state before the loop, except that every name a failed try
can change starts with an arbitrary value (whole numbers that are not negative stay
so; this is checked at the end of each failed try).  Which names those are is found
by running to a fixed point: run(...) repeats the exploration until no failed try
changes a name it was assumed to keep.  A failed try must not write to an array made
before it.  A path ends when its try fails; leaving the loop, by break or by its
condition, is explored with the state that the accepted try left.  For a counted
loop, running out of tries is a further path, on which the changed names, and names
the tries assign, are arbitrary."""
import sys
import numpy as np
import z3
from . import ring, sym
from .ring import SR, Unsupported
from .sym import SI

_MISS = object()


class Unknown:
    """A value about which nothing is known; deciding anything from it is reported."""
    __array_ufunc__ = None
    _unknown = True

    def __init__(self, *a, **k):
        pass

    def _u(self, *a, **k):
        return UNKNOWN
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __pow__ = _u
    __getitem__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = __rmod__ = __call__ = _u
    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported("decision on an unknown value")

    def __iter__(self):
        raise Unsupported("iteration over an unknown value")

    def __str__(self):
        return "?"
    __repr__ = __str__

    def __format__(self, spec):
        return "?"

    def __float__(self):
        raise Unsupported("number from an unknown value")


UNKNOWN = Unknown()


def same(a, b):
    if a is b:
        return True
    if a is _MISS or b is _MISS:
        return False
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, SI) or isinstance(b, SI):
        return isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and z3.simplify(SI.lift(a).z() == SI.lift(b).z()) == True  # noqa: E712
    if isinstance(a, SR) or isinstance(b, SR):
        x, y = SR.lift(a), SR.lift(b)
        return x is not None and y is not None and (x - y).is_zero()
    return type(a) is type(b) and a == b


def kind(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, SI)):
        return "nat"
    if isinstance(v, SR):
        return "real"
    raise Unsupported("a failed try changes a %s" % type(v).__name__)


class Retry:
    def __init__(self, least=20):
        self.least = least
        self.changed = {}        # (loop, name) -> kind
        self.dirty = False
        self.count = 0
        self.live = {}
        self.cuts = set()

    def reset(self):
        """Before each path."""
        self.count = 0
        self.live = {}

    def fresh(self, k, what):
        self.count += 1
        nm = "%s~%d" % (what, self.count)
        if k == "bool":
            return bool(sym.CTX.decide(nm))
        if k == "nat":
            v = SI.var(nm)
            sym.iassume(v.z() >= 0)
            return v
        return ring.free(nm)

    def arrays(self, env):
        return [(v, v.copy()) for v in env.values() if isinstance(v, np.ndarray)] + \
            [(v, len(v.log)) for v in sym.CTX.user.get("owned", [])]

    def start(self, loop, names, env):
        from . import facade
        entry = {}
        for c in names:
            k = self.changed.get((loop, c))
            if k is None:
                entry[c] = env.get(c, _MISS)
                facade.HAVOC.pop((loop, c), None)
            else:
                v = env.get(c)
                if k == "nat" and not (isinstance(v, (int, SI)) and nonneg(v)):
                    raise Unsupported("%s may be negative before the tries" % c)
                entry[c] = self.fresh(k, c)
                facade.HAVOC[loop, c] = lambda old, v=entry[c]: v
        return entry, self.arrays(env)

    def failed(self, loop, entry, arrs, env):
        for c, v in entry.items():
            new = env.get(c, _MISS)
            k = self.changed.get((loop, c))
            if k is not None:
                if new is _MISS or kind(new) != k:
                    raise Unsupported("%s changes its kind" % c)
                if k == "nat" and not nonneg(new):
                    raise Unsupported("%s may become negative" % c)
            elif not same(v, new):
                self.changed[loop, c] = kind(new)
                self.dirty = True
        for a, old in arrs:
            if not (len(a.log) == old if hasattr(a, "log") else same(a, old)):
                raise Unsupported("a failed try writes to an array")
        raise sym.Infeasible()

    # while loops
    def enter(self, loop):
        self.live.pop(loop, None)

    def again(self, loop, cond, carried, env):
        if not cond:
            return False
        self.cuts.add(loop)
        if loop not in self.live:
            self.live[loop] = self.start(loop, carried, env)
            return True
        self.failed(loop, *self.live[loop], env)

    # counted loops
    def tries(self, it, carried, liveout, loop):
        from . import facade
        self.cuts.add(loop)
        env = dict(sys._getframe(1).f_locals)
        names = sorted(set(carried) | set(liveout))
        if sym.CTX.decide("a try"):
            entry, arrs = self.start(loop, carried, env)
            out = {c: env.get(c, _MISS) for c in liveout if c not in entry}
            i = SI.var("try~%s" % loop)
            sym.iassume(z3.And(i.z() >= it.start, i.z() < it.stop)) if it.step == 1 else None
            yield i
            env = sys._getframe(1).f_locals
            for c, v in out.items():
                if not same(v, env.get(c, _MISS)):
                    self.changed.setdefault((loop, c), "any")
            self.failed(loop, entry, arrs, env)
        for c in names:
            k = self.changed.get((loop, c))
            if c not in liveout:
                continue
            if c not in env:
                facade.AFTER[loop, c] = UNKNOWN
            elif k == "any":
                facade.AFTER[loop, c] = UNKNOWN
            elif k is not None:
                facade.AFTER[loop, c] = self.fresh(k, c)

    def run(self, explore):
        """explore() -> list of results; repeated until the assumed kept names are kept."""
        for _ in range(12):
            self.dirty = False
            n = len(self.changed)
            res = explore()
            if not self.dirty and len(self.changed) == n:
                return res
        raise Unsupported("tries do not settle")


def nonneg(v):
    if isinstance(v, int):
        return v >= 0
    s = sym.CTX.solver
    s.push()
    s.add(v.z() < 0)
    r = s.check()
    s.pop()
    return r == z3.unsat
