"""Loop rule for loops that carry scalars from one iteration to the next.

Three obligations sets, each on its own paths: the loop body from an arbitrary
carried state at an arbitrary index (reported through on_step with the carried
values before and after); the code after the loop from an arbitrary carried state
(given by after); and, by the caller, the empty loop.  By induction the value after
the loop is the fold of the step over the indices in order."""
import sys
import z3
from . import sym, lazyarr
from .ring import Unsupported
from .sym import SI
from .lazyarr import BodyEnd


class Fold:
    def __init__(self, arbitrary, on_step):
        self.arbitrary = arbitrary      # (name, value before the loop) -> arbitrary value
        self.on_step = on_step          # (index, before, after)
        self.state = {}
        self.initial = {}

    def __call__(self, it, carried=(), liveout=(), loop=None):
        from . import facade
        if not isinstance(it, facade.SymRange) or it.step != 1:
            raise Unsupported("loop over %r" % (type(it),))
        return self.run(it, tuple(sorted(set(carried) | set(liveout))), loop)

    def run(self, it, carried, loop):
        from . import facade
        env = sys._getframe(1).f_locals
        facade.HAVOC.clear()
        facade.AFTER.clear()
        for c in carried:
            if c not in env:
                raise Unsupported("carried name %s has no value before the loop" % c)
        self.initial = {c: env[c] for c in carried}
        before = {c: self.arbitrary(c, env[c]) for c in carried}
        self.state = before
        if sym.CTX.decide("generic iteration"):
            i = SI.var("i!")
            sym.iassume(z3.And(i.z() >= SI.lift(it.lo).z(), i.z() < SI.lift(it.hi).z()))
            if not sym.ifeasible():
                raise sym.Infeasible()
            for c in carried:
                facade.HAVOC[loop, c] = lambda old, v=before[c]: v
            snap = lazyarr._snapshot()
            yield i
            lazyarr._check_snapshot(snap)
            env = sys._getframe(1).f_locals
            self.on_step(i, before, {c: env[c] for c in carried})
            raise BodyEnd()
        for c in carried:
            facade.AFTER[loop, c] = before[c]
