"""Loop contract for lubrication assembly: the pair loop runs over an arbitrary set of
near pairs.  A bead's own block is the sum over its neighbours; the loops that collect
and add the neighbours are followed for one arbitrary near pair (the observed one), from
an arbitrary partial sum, at an arbitrary place in the collected lists."""
import sys
import numpy as _np
import z3
from . import ring, sym, facade, lazyarr
from .ring import SR, Unsupported
from .sym import SI
from .lazyarr import BodyEnd, ikey, eq, itrue
from .pairloop import PairCut
from .common import oarr
from .spec_lub import condensed, T


class Junk:
    """An item of a gathered list about which nothing is known."""
    __array_ufunc__ = None

    def _no(self, *a, **k):
        raise Unsupported("another item of a gathered list is used")
    __getitem__ = __len__ = __iter__ = __bool__ = __hash__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __index__ = __pow__ = __float__ = _no


facade.GATHERED[:] = [Junk]


class Place(int):
    """Place of the observed item: known only relative to where it is."""
    def __new__(cls, off=0):
        x = int.__new__(cls, 1 + off)
        x.off = off
        return x

    def __add__(self, o):
        if type(o) is int or isinstance(o, SR) and o.is_const():
            return Place(self.off + int(o))
        raise Unsupported("arithmetic on a place in a gathered list")
    __radd__ = __add__

    def _no(self, *a):
        raise Unsupported("arithmetic on a place in a gathered list")
    __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __pow__ = __neg__ = _no
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = _no
    __hash__ = int.__hash__


class NearList:
    """One of the aligned results of the neighbour search: row(position) -> its entry."""
    _symiter = _joinable = True

    def __init__(self, cut, n, field, tail):
        self.cut, self.n, self.field, self.tail = cut, n, field, tail

    @property
    def shape(self):
        return (self.n,) + self.tail

    def _symlen(self):
        return self.n

    def __getitem__(self, k):
        return self.cut.at(k)[self.field]


class NearCut(PairCut):
    def __init__(self, ck, bodies, lams, value, order, tag=""):
        PairCut.__init__(self, ck, bodies, None, tag=tag)
        self.cut = self
        self.lams, self.value, self.order = lams, value, order
        self.n = SI.var("near")
        sym.iassume(self.n.z() >= 0)
        self.rows = {}
        self.given = []
        self.inside = False
        self.gathered = None
        self.checks = []

    # the result of the search
    def lists(self):
        return [NearList(self, self.n, f, t) for f, t in (("pair", (2,)), ("disp", (3,)), ("dist", ()), ("ratio", ()))]

    def at(self, k):
        if isinstance(k, SI) and ikey(k) in self.rows:
            return self.rows[ikey(k)]
        raise Unsupported("entry %r of the near pairs" % (k,))

    def row(self, pos, u, v, r, s, ratio):
        r = oarr(list(r))
        self.given.append((r, r.copy()))
        self.rows[ikey(pos)] = dict(pair=(u, v), disp=r, dist=s, ratio=ratio)

    def ratio(self, label):
        for k in range(len(self.lams) - 1):
            if sym.CTX.decide("%s ratio %d" % (label, k)):
                return k
        return len(self.lams) - 1

    def index(self, lam):
        x = float(lam.eval({}))
        ks = [k for k, l in enumerate(self.lams) if abs(float(l.eval({})) - x) <= 1e-8 + 1e-5 * x]
        if len(ks) != 1:
            raise Unsupported("table ratio")
        return ks[0]

    def sep(self, name):
        s = ring.free(name, pos=True)
        sym.assume(s < 4)
        self.value(0, 0, 0, s)
        return s

    def sc(self, k, s):
        return lambda nm, g: self.value(self.order.index(nm), g, k, s)

    # loops
    def __call__(self, it, carried=(), liveout=(), loop=None):
        facade.HAVOC.clear()
        kind = self.kind(it)
        if kind == "near" and not self.inside:
            return self.outer(it, carried, liveout, loop)
        if kind == "near" and self.inside:
            return self.gather(it, carried, liveout, loop)
        if kind == "gathered" and self.gathered is not None:
            return self.add(it, carried, liveout, loop)
        raise Unsupported("loop over %r" % (type(it),))

    def kind(self, it):
        if isinstance(it, facade.SymRange) and it.step == 1 and lazyarr._same(it.lo, 0) and lazyarr._same(it.hi, self.n) or isinstance(it, NearList):
            return "near"
        if isinstance(it, facade.Joined):
            ks = {self.kind(x) for x in it.parts if x is not None}
            return ks.pop() if len(ks) == 1 else None
        return "gathered" if facade._gathered(it) else None

    def element(self, it, pos):
        """What the loop variable is at the position."""
        if it is None or isinstance(it, facade.SymRange):
            return pos
        if isinstance(it, facade.Joined):
            return tuple(self.element(x, pos) for x in it.parts)
        return it[pos]

    def counters(self, carried, env):
        """Names that count iterations from zero."""
        out = []
        for c in carried:
            v = env.get(c)
            if isinstance(v, (int, SR)) and not isinstance(v, bool) and SR.lift(v).is_zero():
                out.append(c)
        return out

    def outer(self, it, carried, liveout, loop):
        env = sys._getframe(1).f_locals
        if liveout:
            raise Unsupported("loop variables %s are used after the loop" % (liveout,))
        if not sym.CTX.decide("generic iteration"):
            self.after_loop()
            return
        self.inside = True
        u, v = SI.var("u"), SI.var("v")
        nb = self.B.ns + self.B.nd * 2
        sym.iassume(z3.And(u.z() >= 0, u.z() <= v.z(), v.z() < nb.z()))
        if not sym.ifeasible():
            raise sym.Infeasible()
        P = SI.var("P")
        sym.iassume(z3.And(P.z() >= 0, P.z() < self.n.z()))
        self.pair(u, v, P)
        cs = self.counters(carried, env)
        for c in carried:
            facade.HAVOC[loop, c] = (lambda old: P) if c in cs else (lambda old: Junk())
        snap = lazyarr._snapshot()
        yield self.element(it, P)
        lazyarr._check_snapshot(snap)
        env = sys._getframe(1).f_locals
        for c in cs:
            self.checks.append(("%sthe position advances with the pair" % self.tag, lazyarr._same(env[c], P + 1)))
        for a, b in self.given:
            if any(x is not y for x, y in zip(a.ravel(), b.ravel())):
                raise Unsupported("the near pairs are changed")
        raise BodyEnd()

    def pair(self, u, v, P):
        B, rep = self.B, sym.CTX.user["rep"]
        (ku, iu), (kv, iv) = B.bead(u), B.bead(v)
        same = ku == kv and eq(u, v)
        samed = not same and ku != "S" and kv != "S" and ku != kv and eq(iu, iv)
        a = ring.free("a", pos=True)
        rep["ss" if ku == "S" else "ds", ikey(iu)] = a
        self.u, self.ku, self.iu, self.a = u, ku, iu, a
        if same:
            self.row(P, u, v, [SR.const(0)] * 3, SR.const(0), SR.const(1))
            self.b = self.bt = None
            self.info = (ku, iu, kv, iv, True, True, None, None, a, a)
        else:
            k = self.index(SR.const(1)) if samed else self.ratio("pair")
            lam = self.lams[k]
            a2 = a * lam
            if not samed:
                rep["ss" if kv == "S" else "ds", ikey(iv)] = a2
            s, n = self.sep("s"), ring.unit_vector("n")
            self.row(P, u, v, [s * x for x in n], s, lam)
            self.info = (ku, iu, kv, iv, False, samed, None, s, a, a2)
            b = condensed(self.sc(k, s), 1, n, a)
            bt = condensed(self.sc(self.index(1 / lam), s), 1, [-x for x in n], a2)
            self.blocks(b, bt)
        ms = self.matrices()
        if len(ms) != 1:
            raise Unsupported("%d candidate matrices" % len(ms))
        M = self.M = ms[0]
        old = lazyarr.LArr(M.shape, M._get)
        old.log = list(M.log)
        M.log = []
        M._get = lambda o: self.own(o, old)
        self.initial = old
        self.visited = True

    def blocks(self, b, bt):
        """Force rows first: the coupling to rotation and strain is the other's transposed."""
        mk = lambda x, y: dict(A=x["A"], C=x["C"], M=x["M"], B=T(y["B"]), G=T(y["G"]), H=T(y["H"]))
        self.pairfn = lambda *z: (mk(b, bt), mk(bt, b))

    def lists_in(self, env):
        return {n: x for n, x in env.items() if type(x) is list}

    def gather(self, it, carried, liveout, loop):
        fr = sys._getframe(1)
        if carried or not self.info[4]:
            raise Unsupported("the collecting loop carries %s" % (carried,))
        if liveout:
            raise Unsupported("loop variables %s are used after the loop" % (liveout,))
        if self.gathered is not None:
            raise Unsupported("several collecting loops")
        lists = self.lists_in(fr.f_locals)
        before = {n: list(x) for n, x in lists.items()}
        for x in lists.values():
            if not x:
                x.append(Junk())
        snap = lazyarr._snapshot()
        nlog = len(self.M.log)
        Q = SI.var("Q")
        self.observe(Q)
        yield self.element(it, Q)
        fr = sys._getframe(1)
        self.untouched(snap, nlog)
        grown = {}
        for n, x in self.lists_in(fr.f_locals).items():
            old = before.get(n)
            if old is None:
                continue
            if old:
                if len(x) != len(old):
                    raise Unsupported("the collecting loop extends %s" % n)
                continue
            if not x or not isinstance(x[0], Junk):
                raise Unsupported("the collecting loop replaces %s" % n)
            if len(x) > 1:
                grown[n] = x
        counts = {len(x) - 1 for x in grown.values()}
        if len(counts) > 1 or counts and max(counts) > 1:
            raise Unsupported("the collected lists differ in length")
        # other pairs' items come before and after
        for n, x in self.lists_in(fr.f_locals).items():
            if n in before and not before[n]:
                x.append(Junk())
        self.gathered = counts == {1}

    def untouched(self, snap, nlog):
        lazyarr._check_snapshot(snap)
        if len(self.M.log) != nlog:
            raise Unsupported("the matrix is written in an inner loop")

    def observe(self, Q):
        """An arbitrary near pair; what it adds to the bead's own block."""
        B, rep, u = self.B, sym.CTX.user["rep"], self.u
        sym.iassume(z3.And(Q.z() >= 0, Q.z() < self.n.z()))
        nb = B.ns + B.nd * 2
        o = SI.var("o")
        sym.iassume(z3.And(o.z() >= 0, o.z() < nb.z()))
        dec = sym.CTX.decide
        zero = {k: [[SR.const(0)] * w for _ in range(h)] for k, h, w in (("A", 3, 3), ("B", 3, 3), ("C", 3, 3), ("G", 5, 3), ("H", 5, 3), ("M", 5, 5))}
        first = None
        if dec("the bead is first"):
            first = True
            sym.iassume(o.z() > u.z())
        elif dec("the bead is second"):
            first = False
            sym.iassume(o.z() < u.z())
        elif dec("the bead itself"):
            self.row(Q, u, u, [SR.const(0)] * 3, SR.const(0), SR.const(1))
            return self.blocks(zero, zero)
        if not sym.ifeasible():
            raise sym.Infeasible()
        n = ring.unit_vector("n")
        if first is None:
            p = SI.var("p")
            sym.iassume(z3.And(p.z() >= 0, p.z() <= o.z(), p.z() != u.z(), o.z() != u.z()))
            if not sym.ifeasible():
                raise sym.Infeasible()
            if eq(p, o):
                self.row(Q, o, o, [SR.const(0)] * 3, SR.const(0), SR.const(1))
                return self.blocks(zero, zero)
            s = self.sep("s")
            self.row(Q, p, o, [s * x for x in n], s, ring.free("ratio", pos=True))
            return self.blocks(zero, zero)
        ko, io = B.bead(o)
        ku, iu = self.ku, self.iu
        samed = ku != "S" and ko != "S" and eq(iu, io)
        k = self.index(SR.const(1)) if samed else self.ratio("neighbour")
        lam = self.lams[k]
        if not samed:
            rep["ss" if ko == "S" else "ds", ikey(io)] = self.a * lam
        s = self.sep("s")
        pair = (u, o) if first else (o, u)
        self.row(Q, pair[0], pair[1], [s * x for x in n], s, lam if first else 1 / lam)
        b = condensed(self.sc(k, s), 0, n if first else [-x for x in n], self.a)
        self.blocks(b, b)

    def add(self, it, carried, liveout, loop):
        """Adding up what was collected."""
        env = sys._getframe(1).f_locals
        if not self.gathered:
            if liveout:
                for c in liveout:
                    if c not in carried:
                        raise Unsupported("loop variables %s are used after the loop" % (liveout,))
            return
        cs = self.counters(carried, env)
        arrays = {}
        for n, x in env.items():
            if isinstance(x, _np.ndarray) and x.dtype == object and x.size:
                arrays.setdefault(id(x), (n, x, x.copy()))
        acc = {}
        for key, (n, x, old) in arrays.items():
            ys = [SR.lift(y) for y in old.ravel()]
            if all(y is not None and y.is_zero() for y in ys) and not any(x is g for g, _ in self.given):
                for k in _np.ndindex(*x.shape):
                    x[k] = ring.free("so far %s%s" % (n, list(k)))
                acc[n] = (x, old)
        gens = {g for x, old in acc.values() for y in x.ravel() for g in SR.lift(y).gens()}
        start = {n: x.copy() for n, (x, old) in acc.items()}
        for c in carried:
            if c in cs:
                facade.HAVOC[loop, c] = lambda old: Place()
            elif c not in acc:
                raise Unsupported("the summing loop carries %s" % c)
        others = [(n, x, old) for n, x, old in arrays.values() if n not in acc]
        nlog = len(self.M.log)
        yield self.element(it, Place())
        env = sys._getframe(1).f_locals
        if len(self.M.log) != nlog:
            raise Unsupported("the matrix is written in an inner loop")
        for n, x, old in others:
            for a, b in zip(x.ravel(), old.ravel()):
                if a is not b:
                    b = SR.lift(b)
                    if b is None or not (b.gens() and all(ring.GENS[g].meta == "uninit" for g in b.gens())):
                        raise Unsupported("the summing loop changes %s" % n)
        for n, (x, old) in acc.items():
            now = env[n]
            if not isinstance(now, _np.ndarray) or now.shape != x.shape:
                raise Unsupported("the summing loop changes %s" % n)
            d = _np.empty(x.shape, dtype=object)
            for k in _np.ndindex(*x.shape):
                d[k] = SR.lift(now[k]) - start[n][k]
                if gens & set(d[k].gens()):
                    raise Unsupported("what a neighbour adds depends on the others")
            for k in _np.ndindex(*x.shape):
                now[k] = d[k]
        for c in cs:
            if not (isinstance(env[c], Place) and env[c].off == 1):
                raise Unsupported("the place in the lists does not advance by one")

    # obligations
    def body_obligations(self):
        if self.info == "search":
            self.visited = True
            return [(self.tag + n, d) for n, d in self.asked], []
        if self.info[4] and self.gathered is None:
            raise Unsupported("the bead's own block is not collected")
        out, frame = PairCut.body_obligations(self)
        for kr, r0, kc, c0, m in self.required():
            out.append(("%splaces of distant pairs stay zero %s%s" % (self.tag, kr, kc), SR.lift(self.initial.get((lazyarr.canon(r0), lazyarr.canon(c0))))))
        return out, frame + self.checks

    def after_loop(self):
        self.stack = []
        PairCut.after(self, self, None, None)
