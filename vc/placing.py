"""Loop rules for placing any number of particles one after another.

The loop over the new particles is cut to one arbitrary particle i: every row placed
before is arbitrary, names that an iteration changes start with an arbitrary value
(found by the fixed point of retry.Retry), and the code after the loop is run on its
own with arbitrary rows.  An iteration may write arrays made before the loop only in
its own group of rows.

Loops over the particles already there (existing ones, or those placed before) are
followed for one observed particle, an arbitrary one that is the same in every such
loop of a path.  The names such a loop carries must be counters that do not return to
zero or flags that are never taken back, which is checked for the observed particle from
an arbitrary value; the iterations before and after it are replaced by an arbitrary rise.
Leaving such a loop early at any other particle is a path of its own."""
import sys
import numpy as np
import z3
from . import sym, retry, rowmap, lazyarr, loader
from .ring import SR, Unsupported
from .sym import SI
from .lazyarr import LArr, BodyEnd, canon, itrue

_MISS = object()


def equal(a, b):
    a, b = canon(a), canon(b)
    d = canon(SI.lift(a) - SI.lift(b))
    return isinstance(d, int) and d == 0


class Placing:
    def __init__(self, rule, N, C, per=1):
        self.rule, self.N, self.C, self.per = rule, N, C, per
        self.mode = "after"

    def reset(self, mode, target=None):
        """target: the observed particle, ("existing",), ("placed", bead) or ("none",)."""
        self.mode, self.target = mode, target
        self.depth = 0
        self.met = 0
        self.tested = 0
        self.arrays = None
        self.i = SI.var("i")
        self.e, self.d = SI.var("e"), SI.var("d")
        self.grown = None
        self.end = None
        self.passed = False

    def __call__(self, it, carried=(), liveout=(), loop=None):
        from . import facade
        if not isinstance(it, facade.SymRange) or it.step != 1:
            raise Unsupported("loop over %r" % (type(it),))
        if not equal(it.lo, 0):
            raise Unsupported("loop that does not start at the first particle")
        if self.depth == 0:
            if self.passed or not equal(it.hi, SI.lift(self.N) * self.per):
                raise Unsupported("loop over %r particles" % (it.hi,))
            return self.outer(it, carried, liveout, loop)
        if self.depth == 1:
            return self.others(it, carried, liveout, loop)
        raise Unsupported("nested loops over particles")

    # ---- the loop over the new particles
    def grows(self, v):
        return isinstance(v, LArr) and v.ndim == 2 and equal(v.shape[0], self.C)

    def rows(self, first, count):
        """Existing rows followed by `count` placed ones."""
        first = first.frozen()

        def g(o):
            if itrue(SI.lift(o[0]) < self.C):
                return first.get(o)
            return rowmap.elt("placed", (canon(SI.lift(o[0]) - self.C),) + tuple(o[1:]))
        return LArr((canon(SI.lift(self.C) + count),) + first.shape[1:], g, owned=True)

    def forget(self):
        """Arrays made before the loop: every row arbitrary."""
        self.arrays = [a for a in lazyarr.owned_arrays() if equal(a.shape[0], self.N) or equal(a.shape[0], SI.lift(self.N) * 2)]
        for k, a in enumerate(self.arrays):
            a._get = lambda o, k=k: rowmap.elt("A%d" % k, o)
            a.log = []

    def outer(self, it, carried, liveout, loop):
        from . import facade
        env = dict(sys._getframe(1).f_locals)
        others = [a for a in lazyarr.owned_arrays()]
        self.forget()
        keep = [(a, len(a.log)) for a in others if not any(a is b for b in self.arrays)]
        if self.mode == "body":
            sym.iassume(z3.And(self.i.z() >= 0, self.i.z() < SI.lift(it.hi).z()))
            if self.target[0] == "existing":
                sym.iassume(z3.And(self.e.z() >= 0, self.e.z() < SI.lift(self.C).z()))
            elif self.target[0] == "placed":
                sym.iassume(z3.And(self.d.z() >= 0, self.d.z() < self.i.z()))
            if not sym.ifeasible():
                raise sym.Infeasible()
            entry, grown = {}, {}
            for c in carried:
                v = env.get(c, _MISS)
                if self.grows(v):
                    grown[c] = self.rows(v, self.i)
                    facade.HAVOC[loop, c] = lambda old, v=grown[c]: v
                    continue
                k = self.rule.changed.get((loop, c))
                if k is None:
                    entry[c] = v
                elif k == "nat":
                    if not (isinstance(v, (int, SI)) and retry.nonneg(v)):
                        raise Unsupported("%s may be negative before the loop" % c)
                    entry[c] = self.rule.fresh(k, c)
                    facade.HAVOC[loop, c] = lambda old, v=entry[c]: v
                else:
                    entry[c] = retry.UNKNOWN
                    facade.HAVOC[loop, c] = lambda old: retry.UNKNOWN
            snap = self.state(env)
            self.depth = 1
            yield self.i
            self.depth = 0
            env = sys._getframe(1).f_locals
            self.unchanged(snap, "an iteration")
            for a, n in keep:
                if len(a.log) != n:
                    raise Unsupported("an iteration writes another array")
            for c, v in entry.items():
                new = env.get(c, _MISS)
                k = self.rule.changed.get((loop, c))
                if k == "nat":
                    if not (isinstance(new, (int, SI)) and not isinstance(new, bool) and retry.nonneg(new)):
                        raise Unsupported("%s may become negative" % c)
                elif k is None and not retry.same(v, new):
                    nat = isinstance(new, (int, SI)) and not isinstance(new, bool) and isinstance(v, (int, SI)) and not isinstance(v, bool)
                    self.rule.changed[loop, c] = "nat" if nat else "any"
                    self.rule.dirty = True
            self.grown = {c: (old, env.get(c)) for c, old in grown.items()}
            self.end = dict(env)
            raise BodyEnd()
        self.passed = True
        for c in set(carried) | set(liveout):
            if c not in liveout:
                continue
            v = env.get(c, _MISS)
            facade.AFTER[loop, c] = self.rows(v, SI.lift(self.N) * self.per) if c in carried and self.grows(v) else retry.UNKNOWN

    def own_rows(self):
        """Whether the iteration wrote only its own group of rows."""
        for a in self.arrays:
            w = 2 if equal(a.shape[0], SI.lift(self.N) * 2) and self.per == 1 else 1
            for starts, lens, val in a.log:
                off = canon(SI.lift(starts[0]) - self.i * w)
                if not isinstance(off, int) or not isinstance(lens[0], int) or off < 0 or off + lens[0] > w:
                    return False
        return True

    # ---- loops over the particles already there
    def state(self, env):
        out = [(v, v.copy()) for v in env.values() if isinstance(v, np.ndarray)]
        out += [(v, list(v)) for v in env.values() if isinstance(v, list)]
        out += [(v, dict(v)) for v in env.values() if isinstance(v, dict)]
        return out

    def unchanged(self, snap, what):
        for a, old in snap:
            if isinstance(a, dict):
                ok = list(a) == list(old) and all(retry.same(a[k], old[k]) for k in a)
            else:
                ok = retry.same(a, old)
            if not ok:
                raise Unsupported("%s changes a list or an array" % what)

    def index(self, hi):
        """Position of the observed particle in a loop of this length (None: not in it)."""
        hi, i = canon(hi), self.i
        old, new = self.target[0] == "existing", self.target[0] == "placed"
        if equal(hi, self.C):
            return self.e if old else None
        if equal(hi, SI.lift(self.C) + i):
            return self.e if old else canon(SI.lift(self.C) + self.d) if new else None
        if equal(hi, i):
            return self.d if new else None
        if equal(hi, i * 2) and self.per == 1:
            return canon(self.d * 2 + self.target[1]) if new else None
        raise Unsupported("loop over %r particles already there" % (hi,))

    def raised(self, v, name):
        """An arbitrary value, not zero or false if v is not."""
        if isinstance(v, bool):
            return v or bool(sym.CTX.decide("%s before" % name))
        if isinstance(v, (int, SI)):
            w = self.rule.fresh("nat", name)
            sym.iassume(z3.Implies(SI.lift(v).z() > 0, w.z() > 0))
            return w
        raise Unsupported("a loop over particles carries %s" % name)

    def others(self, it, carried, liveout, loop):
        from . import facade
        env = dict(sys._getframe(1).f_locals)
        self.met += 1
        idx = self.index(it.hi)
        carried = sorted(set(carried) | {c for c in liveout if isinstance(env.get(c), (bool, int, SI))})
        for c in carried:
            if c not in env:
                raise Unsupported("%s has no value before the loop" % c)
            if not isinstance(env[c], bool) and not (isinstance(env[c], (int, SI)) and retry.nonneg(env[c])):
                raise Unsupported("a loop over particles carries %s" % c)
        logs = [(a, len(a.log)) for a in lazyarr.owned_arrays()]
        snap = self.state(env)
        self.depth = 2
        if loop in loader.LEAVES and sym.CTX.decide("left early at another particle"):
            j = SI.var("other~%d" % self.met)
            sym.iassume(z3.And(j.z() >= 0, j.z() < SI.lift(it.hi).z()))
            if not sym.ifeasible():
                raise sym.Infeasible()
            for c in carried:
                v = self.raised(env[c], c)
                facade.HAVOC[loop, c] = lambda old, v=v: v
            try:
                yield j
            except GeneratorExit:
                self.depth = 1
                raise
            raise sym.Infeasible()
        after = {c: env[c] for c in carried}
        side = False
        if idx is not None and any(type(v) is bool and v or not isinstance(v, bool) and retry.nonneg(canon(SI.lift(v) - 1)) for v in after.values()):
            # something else has been hit already: what the observed particle adds does not matter,
            # only that it takes nothing back
            side = bool(sym.CTX.decide("what the loop does"))
            if not side:
                idx = None
        if idx is not None:
            start = {c: self.raised(env[c], c) for c in carried}
            for c in carried:
                facade.HAVOC[loop, c] = lambda old, v=start[c]: v
            try:
                yield idx
            except GeneratorExit:
                self.depth = 1
                raise
            self.tested += 1
            env = sys._getframe(1).f_locals
            for a, n in logs:
                if len(a.log) != n:
                    raise Unsupported("a loop over particles writes an array")
            self.unchanged(snap, "a loop over particles")
            for c in carried:
                s, t = start[c], env[c]
                if type(t) is bool and type(s) is bool:
                    if s and not t:
                        raise Unsupported("%s is taken back" % c)
                elif isinstance(s, (int, SI)) and isinstance(t, (int, SI)) and not isinstance(s, bool) and not isinstance(t, bool):
                    if not retry.nonneg(t) or sym.ientails(z3.Implies(SI.lift(s).z() > 0, SI.lift(t).z() > 0)) is not True:
                        raise Unsupported("%s may return to zero" % c)
                else:
                    raise Unsupported("a loop over particles carries %s" % c)
                after[c] = t
            if side:
                raise sym.Infeasible()
        self.depth = 1
        for c in liveout:
            facade.AFTER[loop, c] = self.raised(after[c], c) if c in after else retry.UNKNOWN
