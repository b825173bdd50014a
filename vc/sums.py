"""Filtered comprehensions over a symbolic range, their lengths and sums.

A sum over i in [lo, hi) with filter F(i) of e(i) is an unknown number.  Two such
sums are the same unknown when their ranges agree, z3 shows the filters equivalent
for an arbitrary index of the range, and the elements are equal (extensionality)."""
import re
import z3
from . import ring, sym, lazyarr, rowmap
from .ring import SR, Unsupported
from .sym import SI


def _consts(f, out=None):
    out = {} if out is None else out
    if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out[f.decl().name()] = f
    for c in f.children():
        _consts(c, out)
    return out


def rename(f, old, new):
    """The formula with the index renamed (also in the names of remainders)."""
    mp = []
    for n, c in _consts(f).items():
        n2 = re.sub(r"(?<![\w])%s(?![\w])" % re.escape(old), new, n)
        if n2 != n:
            mp.append((c, z3.Int(n2)))
    return z3.substitute(f, *mp) if mp else f


def total(var, lo, hi, filt, elt, count=False):
    """The sum of elt over the indices var in [lo, hi) with filt."""
    ctx = sym.CTX
    tab = ctx.user.setdefault("sums", [])
    lo, hi = SI.lift(lo), SI.lift(hi)
    e = elt if isinstance(elt, int) else SR.lift(elt)
    for lo2, hi2, f2, e2, g in tab:
        f = rename(filt, var, "ix!")
        if not (sym.ientails(z3.And(lo.z() == lo2.z(), hi.z() == hi2.z()))):
            continue
        i = z3.Int("ix!")
        if sym.ientails(z3.Implies(z3.And(i >= lo.z(), i < hi.z()), f == f2)):
            d = SR.lift(rowmap.reindex(e, var, SI.var("ix!"))) - SR.lift(e2)
            if d.is_zero():
                return g
    g = ring.free("sum%d" % len(tab), nonneg=count, meta=("sum", len(tab)))
    tab.append((lo, hi, rename(filt, var, "ix!"), rowmap.reindex(e, var, SI.var("ix!")), g))
    return g


class Filtered:
    _symiter = True

    def __init__(self, binder, filt, elt, parent=None):
        self.binder, self.filt, self.elt, self.parent = binder, filt, elt, parent

    def __getitem__(self, k):
        """The first element, and all but the first, when the first index of the range is selected."""
        v, lo, hi = self.binder
        lo = SI.lift(lo)
        if not (k == slice(1, None) or (isinstance(k, int) and k == 0)) or \
                not sym.ientails(z3.And(lo.z() < SI.lift(hi).z(), z3.Implies(z3.Int(v) == lo.z(), self.filt))):
            raise Unsupported("part of a filtered list")
        if k == 0:
            return rowmap.reindex(self.elt, v, lo)
        return Filtered((v, lo + 1, hi), self.filt, self.elt, self)

    def _symlen(self):
        if self.parent is not None:
            return self.parent._symlen() - 1
        v, lo, hi = self.binder
        return total(v, lo, hi, self.filt, 1, count=True)

    def _symsum(self):
        v, lo, hi = self.binder
        return total(v, lo, hi, self.filt, self.elt)
