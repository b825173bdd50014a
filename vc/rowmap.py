"""Loop rule for loops whose iterations fill separate rows.

for i in range(lo, hi): the body is run once with an arbitrary i.  It must make no
case split, carry no name, write arrays of symbolic size only in row i (or in the
i-th group of a rows) and read such arrays, when it also writes them, only there.
The effect of the whole loop is then the effect of the body at every i."""
import z3
from . import ring, sym, lazyarr
from .ring import SR, GENS, Unsupported
from .sym import SI
from .lazyarr import LArr, canon, ikey, _within, _pick, MISS

_n = [0]


def elt(name, o, pos=False):
    """The element of an arbitrary array."""
    return ring.free("%s[%s]" % (name, ",".join(map(ikey, o))), pos=pos, meta=("elt", name, tuple(o), pos))


def array(name, shape, pos=False, owned=False):
    return LArr(tuple(shape), lambda o: elt(name, o, pos), name=name, owned=owned)


def _sub_i(i, var, j):
    i = canon(i)
    if isinstance(i, SI) and var in i.v:
        k = i.v[var]
        rest = SI(i.c, {n: c for n, c in i.v.items() if n != var}).norm()
        return canon(SI.lift(rest) + SI.lift(j) * k)
    return i


def reindex(e, var, j):
    """e with the index var replaced by j."""
    if isinstance(e, str):
        return e
    if isinstance(e, (int, SI)):
        return _sub_i(e, var, j)
    e = SR.lift(e)
    mp = {}
    for g in e.free_gens():
        m = GENS[g].meta
        if isinstance(m, tuple) and m[0] == "elt":
            o = tuple(_sub_i(x, var, j) for x in m[2])
            if any(ikey(a) != ikey(b) for a, b in zip(o, m[2])):
                mp[g] = elt(m[1], o, m[3])
        elif isinstance(m, tuple) and m[0] == "int" and m[1] == var:
            mp[g] = SR.lift(SI.lift(j)._as_SR() if isinstance(SI.lift(j), SI) else j)
        elif var in GENS[g].name:
            raise Unsupported("value %s depends on the loop index" % GENS[g].name)
    return ring._subs(e, mp, {}) if mp else e


class RowMap:
    def __init__(self):
        self.loops = 0

    def __call__(self, it, carried=(), liveout=(), loop=None):
        from .facade import SymRange
        if carried or liveout:
            raise Unsupported("loop carries %s" % (tuple(carried) + tuple(liveout),))
        if not isinstance(it, SymRange) or it.step != 1:
            raise Unsupported("loop over %r" % (type(it),))
        return self.run(it.lo, it.hi)

    def run(self, lo, hi):
        if lazyarr.itrue(SI.lift(hi) <= lo):
            return
        self.loops += 1
        _n[0] += 1
        var = "R%d" % _n[0]
        i = SI.var(var)
        sym.iassume(z3.And(i.z() >= SI.lift(lo).z(), i.z() < SI.lift(hi).z()))
        ctx = sym.CTX
        before = {id(a): (a, len(a.log)) for a in ctx.user.get("owned", [])}
        lists = {id(x): x for x in ctx.user.get("symlists", [])}
        snap = lazyarr._snapshot()
        nd = len(ctx.trace)
        reads = []
        outer = LArr.READS
        LArr.READS = reads
        try:
            yield i
        finally:
            LArr.READS = outer
        lazyarr._check_snapshot(snap)
        if len(ctx.trace) != nd:
            raise Unsupported("the loop body splits cases: %s" % (ctx.trace[nd:],))
        for a in list(ctx.user.get("owned", [])):
            if id(a) in before:
                k = before[id(a)][1]
            elif id(getattr(a, "owner", None)) in lists:
                k = 0
            else:
                continue
            new = a.log[k:]
            if not new:
                continue
            g = self.group(new, var, i)
            for b, idx in reads:
                if b is a:
                    d = canon(SI.lift(idx[0]) - i * g)
                    if isinstance(d, SI) or not 0 <= d < g:
                        raise Unsupported("an iteration reads another iteration's row")
            a.log[k:] = [self.entry(a, new, var, i, g, lo, hi)]

    def group(self, new, var, i):
        a = None
        for starts, lens, val in new:
            s = canon(starts[0])
            if not isinstance(s, SI) or var not in s.v or len(s.v) != 1:
                raise Unsupported("an iteration writes outside its row")
            if a not in (None, s.v[var]):
                raise Unsupported("rows of different height")
            a = s.v[var]
        for starts, lens, val in new:
            d = canon(SI.lift(starts[0]) - i * a)
            if isinstance(d, SI) or d < 0 or not isinstance(lens[0], int) or d + lens[0] > a:
                raise Unsupported("an iteration writes outside its row")
            if any(isinstance(canon(x), SI) and var in canon(x).v for x in starts[1:]):
                raise Unsupported("column depends on the loop index")
        return a

    def entry(self, arr, new, var, i, a, lo, hi):
        def val(off):
            o0 = off[0]
            if a == 1:
                j, r = canon(SI.lift(o0) + lo), 0
            else:
                j, r = lazyarr.unflatten(o0, (a,))
                j = canon(SI.lift(j) + lo)
            for starts, lens, v in reversed(new):
                d = canon(SI.lift(starts[0]) - i * a)
                if not d <= r < d + lens[0]:
                    continue
                if all(_within(x, s, n) for x, s, n in zip(off[1:], starts[1:], lens[1:])):
                    o = (r - d,) + tuple(canon(SI.lift(x) - s) for x, s in zip(off[1:], starts[1:]))
                    return reindex(_pick(v, o), var, j)
            return MISS
        starts = (canon(SI.lift(lo) * a),) + (0,) * (len(arr.shape) - 1)
        lens = (canon((SI.lift(hi) - lo) * a),) + tuple(arr.shape[1:])
        return starts, lens, val
