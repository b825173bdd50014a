"""Exact stand-in for the numpy/scipy functions the repository uses.

Arrays of reals are numpy object arrays of ring.SR.  Each function has the
mathematical meaning of its numpy namesake (this table is part of the trusted
base and is cross-checked against numpy by tools/selftest.py)."""
import builtins
import math
import re
import types
import numpy as _np
import z3 as _z3
from fractions import Fraction
from . import ring, sym
from .ring import SR, Unsupported, div
from .sym import SI, SBool


def isarr(x):
    return isinstance(x, _np.ndarray)


def lazy(x):
    return getattr(x, "_lazy", False)


def anylazy(args):
    for a in args:
        if lazy(a):
            return True
        if isinstance(a, (list, tuple)) and anylazy(a):
            return True
    return False


def lift_arr(a):
    """Object array of SR (or keep integer/bool arrays)."""
    a = _np.asarray(a)
    if a.dtype == object:
        return a
    out = _np.empty(a.shape, dtype=object)
    for k in _np.ndindex(*a.shape):
        out[k] = SR.lift(a[k].item())
    return out


def toarr(x, dtype=None):
    if lazy(x):
        return x
    if hasattr(x, "_to_lazy"):
        return x._to_lazy()
    if hasattr(x, "_to_arr"):
        return toarr(x._to_arr())
    if isinstance(x, (list, tuple)) and any(hasattr(y, "_to_lazy") for y in x):
        from . import lazyarr
        return lazyarr.stack([y._to_lazy() if hasattr(y, "_to_lazy") else y for y in x])
    if isinstance(x, _np.ndarray):
        a = x
    else:
        a = _mk(x)
    if dtype is not None and dtype in (float, "float", "float64", _np.float64) and a.dtype != object:
        return lift_arr(a)
    if a.dtype.kind == "f":
        return lift_arr(a)
    if a.dtype == object and dtype in (float, "float", _np.float64):
        b = _np.empty(a.shape, dtype=object)
        for k in _np.ndindex(*a.shape):
            v = SR.lift(a[k])
            if v is None:
                raise Unsupported("array element %r" % (a[k],))
            b[k] = v
        return b
    if dtype in (int, "int") and a.dtype == object:
        b = _np.empty(a.shape, dtype=int)
        for k in _np.ndindex(*a.shape):
            b[k] = BUILTINS["int"](a[k])
        return b
    return a


def _flat(x, out):
    if isinstance(x, (list, tuple)):
        for y in x:
            _flat(y, out)
    elif isinstance(x, _np.ndarray):
        out.extend(x.ravel().tolist() if x.dtype != object else list(x.ravel()))
    else:
        out.append(x)


def _shape(x):
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        s = [_shape(y) for y in x]
        if any(t != s[0] for t in s):
            raise Unsupported("ragged array")
        return (len(x),) + s[0]
    if isinstance(x, _np.ndarray):
        return x.shape
    return ()


def _mk(x):
    if not isinstance(x, (list, tuple, SR, SI, SBool)):
        if lazy(x):
            return x
        a = _np.array(x)
        return a
    sh = _shape(x)
    fl = []
    _flat(x, fl)
    if not fl:
        return lift_arr(_np.zeros(sh))
    if all(isinstance(v, (bool, _np.bool_)) for v in fl):
        return _np.array(fl, dtype=bool).reshape(sh)
    if all(isinstance(v, (int, _np.integer)) and not isinstance(v, bool) for v in fl):
        return _np.array([int(v) for v in fl]).reshape(sh)
    if all(isinstance(v, str) for v in fl):
        return _np.array(fl).reshape(sh)
    a = _np.empty(len(fl), dtype=object)
    for i, v in enumerate(fl):
        if isinstance(v, SI):
            a[i] = v
        elif isinstance(v, (SBool, bool)):
            a[i] = v
        elif isinstance(v, int) or v is None or isinstance(v, str):
            a[i] = SR.lift(v) if isinstance(v, int) else v
        else:
            q = SR.lift(v)
            a[i] = v if q is None else q
    return a.reshape(sh)


def _emap(f, *args):
    """Elementwise with broadcasting; scalars stay scalars."""
    if not any(isarr(a) for a in args):
        return f(*args)
    ar = [a if isarr(a) else None for a in args]
    sh = _np.broadcast_shapes(*[a.shape for a in ar if a is not None])
    bs = [_np.broadcast_to(a, sh) if a is not None else None for a in ar]
    out = _np.empty(sh, dtype=object)
    for k in _np.ndindex(*sh):
        vals = []
        for b, a in zip(bs, args):
            v = b[k] if b is not None else a
            if isinstance(v, _np.generic):
                v = v.item()
            vals.append(v)
        out[k] = f(*vals)
    return out


def _binary(name, pyop):
    def f(a, b):
        if lazy(a) or lazy(b):
            return (a if lazy(a) else b)._arr_binop(a, b, name)
        if isarr(a) or isarr(b):
            if isinstance(a, (list, tuple)):
                a = toarr(a)
            if isinstance(b, (list, tuple)):
                b = toarr(b)
            if isarr(a) and isarr(b) and a.dtype.kind in "ib" and b.dtype.kind in "ib" and name != "div" and name != "pow":
                return pyop(a, b)
            if (not isarr(a) and isinstance(a, int) and b.dtype.kind in "i") or \
                    (not isarr(b) and isinstance(b, int) and a.dtype.kind in "i"):
                if name not in ("div", "pow"):
                    return pyop(a, b)
            if not isinstance(a, _np.ndarray) and SR.lift(a) is None:
                return pyop(a, b)
            if not isinstance(b, _np.ndarray) and SR.lift(b) is None:
                return pyop(a, b)
            return _emap(lambda x, y: pyop(_l(x), _l(y)), a, b)
        return pyop(a, b)
    return f


def _l(x):
    if isinstance(x, float):
        return SR.lift(x)
    return x


def _pydiv(a, b):
    if isinstance(a, float):
        a = SR.lift(a)
    if isinstance(b, float):
        b = SR.lift(b)
    if isinstance(a, SI) or isinstance(b, SI):
        return SR.lift(a) / SR.lift(b)
    if isinstance(a, SBool):
        a = int(a)
    return div(a, b)


def _pypow(a, b):
    if isinstance(a, float):
        a = SR.lift(a)
    if isinstance(b, float):
        b = SR.lift(b)
    if isinstance(a, bool):
        a = int(a)
    if isinstance(a, int) and isinstance(b, int):
        return a ** b if b >= 0 else SR.const(Fraction(a) ** b)
    if isinstance(a, int):
        return SR.lift(a) ** b
    return a ** b


def _pymod(a, b):
    if isinstance(a, str) and any(getattr(x, "_unknown", False) for x in (b if isinstance(b, tuple) else (b,))):
        return "?"
    if isinstance(a, str):
        return _format(a, b)
    if isinstance(a, (int, _np.integer)) and isinstance(b, (int, _np.integer)):
        return a % b
    if hasattr(b, "__vc_rmod__"):
        return b.__vc_rmod__(a)
    if isinstance(a, SI):
        return a % b
    return sym.mod(SR.lift(a), SR.lift(b))


TOKENS = []


def token(x, spec):
    """Text standing for a formatted symbolic number; decoded by untoken()."""
    TOKENS.append((spec, x))
    return "\ue000%d\ue001" % (len(TOKENS) - 1)


def untoken(text):
    """[str or (spec, value)]"""
    out = []
    for k, part in enumerate(re.split("\ue000(\\d+)\ue001", text)):
        out.append(part if k % 2 == 0 else TOKENS[int(part)])
    return [p for p in out if p != ""]


def _format(fmt, args):
    """fmt % args with symbolic numbers."""
    args = list(args) if isinstance(args, tuple) else [args]
    if not any(isinstance(a, (SR, SI)) for a in args):
        return fmt % tuple(args)
    out, k = [], 0
    for part in re.split(r"(%[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z%])", fmt):
        if part.startswith("%") and part != "%%" and len(part) > 1:
            a = args[k]
            k += 1
            if isinstance(a, SR) and a.is_const():
                a = float(a.cval())
            out.append(token(a, part[1:]) if isinstance(a, (SR, SI)) else part % a)
        else:
            out.append(part.replace("%%", "%"))
    if k != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


def _pyfdiv(a, b):
    if isinstance(a, (int, _np.integer)) and isinstance(b, (int, _np.integer)):
        return a // b
    if isinstance(a, SI) and (isinstance(b, int) or sym.PRODUCTS[0] and isinstance(b, SI)):
        return a // b
    return sym.floor(SR.lift(a) / SR.lift(b))


def _add(a, b):
    return a + b


def _sub(a, b):
    return a - b


def _mul(a, b):
    return a * b


OPF = {
    "__vc_add": _binary("add", _add),
    "__vc_sub": _binary("sub", _sub),
    "__vc_mul": _binary("mul", _mul),
    "__vc_div": _binary("div", _pydiv),
    "__vc_pow": _binary("pow", _pypow),
    "__vc_mod": _binary("mod", _pymod),
    "__vc_fdiv": _binary("fdiv", _pyfdiv),
}


def _matmul(a, b):
    if lazy(a) or lazy(b):
        return (a if lazy(a) else b)._arr_binop(a, b, "matmul")
    if isinstance(a, SpMat) or isinstance(b, SpMat):
        return _dense(a) @ _dense(b) if not (isinstance(a, SpMat) and isinstance(b, SpMat)) else SpMat(_dense(a) @ _dense(b))
    return _npdot(toarr(a), toarr(b))


OPF["__vc_matmul"] = _matmul


def _aug(op, a, b):
    """In-place: arrays are updated in place, everything else rebound."""
    if lazy(a):
        return a._aug(op, b)
    if isinstance(a, list) and op == "__vc_add":
        a += list(b)
        return a
    r = OPF[op](a, b)
    if isarr(a) and a.shape != ():
        if a.dtype != object:
            if isarr(r) and r.dtype == object:
                raise TypeError("Cannot cast ufunc output from float64 to int64")
            a[...] = r
            return a
        a[...] = r
        return a
    return r


# ---- iteration ---------------------------------------------------------------

class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __len__(self):
        raise Unsupported("len of symbolic range")


def _range(*a):
    if any(isinstance(x, SI) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(*a)
        return SymRange(*a)
    for x in a:
        if isinstance(x, SR):
            raise TypeError("'float' object cannot be interpreted as an integer")
    return builtins.range(*a)


LOOP_HOOK = [None]


def _astype(x, t="float", **k):
    if isinstance(x, _np.ndarray) and x.dtype == object:
        if t in ("float", float, _floatf, "float64") or t is NPFacade.T["float64"]:
            return x.copy()
        if t in (bool, "bool"):
            return _np.array([bool(v) for v in x.ravel()], dtype=bool).reshape(x.shape)
        if t in ("int", int, _intf):
            out = x.copy()
            for k2 in _np.ndindex(*x.shape):
                out[k2] = _intf(x[k2])
            return out
        raise Unsupported("astype(%r)" % (t,))
    if t is _floatf:
        t = float
    elif t is _intf:
        t = int
    return x.astype(t, **k)


HAVOC = {}
AFTER = {}


def _after(loop, name, env):
    """Identity, except for a name whose loop has been replaced by its contract."""
    if (loop, name) in AFTER:
        return AFTER.pop((loop, name))
    return env[name] if name in env else UNBOUND


def _cif(c):
    from . import lazyarr
    return lazyarr.cif(c)


def _cand(*th):
    zs = []
    for t in th:
        v = t()
        if isinstance(v, SBool) and v.z is not None:
            zs.append(v.z)
        elif not v:
            return False
    return SBool(z=_z3.And(*zs)) if zs else True


def _cor(*th):
    zs = []
    for t in th:
        v = t()
        if isinstance(v, SBool) and v.z is not None:
            zs.append(v.z)
        elif v:
            return True
    return SBool(z=_z3.Or(*zs)) if zs else False


def _cnot(v):
    return SBool(z=_z3.Not(v.z)) if isinstance(v, SBool) and v.z is not None else not v


def _havoc(loop, name, env):
    """Identity, except for a name carried by a loop that is being cut."""
    if (loop, name) not in HAVOC:
        if name in env:
            return env[name]
        return UNBOUND
    h = HAVOC.pop((loop, name))
    v = env.get(name, UNBOUND)
    if callable(h):
        return h(v)
    if isinstance(v, _np.ndarray) and v.base is None:
        out = _np.empty(v.shape, dtype=object)
        for k in _np.ndindex(*v.shape):
            out[k] = ring.free("%s@%s%s" % (name, loop, list(k)), meta="uninit")
        return out
    if isinstance(v, (SR, int)) and not isinstance(v, bool):
        return ring.free("%s@%s" % (name, loop), meta="uninit")
    raise Unsupported("loop carries %s" % name)


class _Unbound:
    def __getattr__(self, n):
        raise NameError("name used before assignment")


UNBOUND = _Unbound()


def _iter(it, carried=(), liveout=(), loop=None):
    if isinstance(it, SymRange) or getattr(it, "_symiter", False) or lazy(it):
        if LOOP_HOOK[0] is None:
            raise Unsupported("loop over a symbolic range")
        return LOOP_HOOK[0](it, carried, liveout, loop)
    if _gathered(it):
        if LOOP_HOOK[0] is None:
            raise Unsupported("loop over a gathered list")
        return LOOP_HOOK[0](it, carried, liveout, loop)
    if RETRY[0] is not None and isinstance(it, range) and builtins.len(it) >= RETRY[0].least:
        return RETRY[0].tries(it, carried, liveout, loop)
    return it


RETRY = [None]
GATHERED = []


def _while(loop, cond, carried, env):
    """Condition of a while loop; cut to one arbitrary iteration when a rule is set."""
    c = builtins.bool(cond)
    if RETRY[0] is None:
        return c
    return RETRY[0].again(loop, c, carried, env)


def _enter(loop):
    if RETRY[0] is not None:
        RETRY[0].enter(loop)


def _len(x):
    if lazy(x):
        return x.shape[0]
    if hasattr(x, "_symlen"):
        return x._symlen()
    if _gathered(x):
        raise Unsupported("length of a gathered list")
    return builtins.len(x)


def _intf(x=0, *a):
    if isinstance(x, SR):
        if x.is_const():
            return math.trunc(x.cval())
        if all(ring.GENS[g].meta in ("const", "pi") for g in x.gens()):
            return int(x.eval({}))
        r = _as_int(x)
        if r is not None:
            return r
        raise Unsupported("int() of a symbolic real")
    if isinstance(x, SI):
        return x
    if isinstance(x, _np.ndarray):
        return _intf(x.item())
    return builtins.int(x, *a)


def _as_int(x):
    """Real that is an integer linear form over symbolic integers."""
    out = 0
    for m, c in x.t.items():
        if m == ():
            if Fraction(c).denominator != 1:
                return None
            out = out + int(c)
        elif len(m) == 1 and m[0][1] == 1 and isinstance(ring.GENS[m[0][0]].meta, tuple) \
                and ring.GENS[m[0][0]].meta[0] == "int" and Fraction(c).denominator == 1:
            out = out + SI.var(ring.GENS[m[0][0]].meta[1]) * int(c)
        else:
            return None
    return out


def _floatf(x=0):
    if isinstance(x, (str,)):
        return SR.lift(builtins.float(x))
    if isinstance(x, _np.ndarray):
        return SR.lift(x.item())
    v = SR.lift(x)
    if v is None:
        raise Unsupported("float()")
    return v


def _absf(x):
    if lazy(x):
        return x._emap1(ring.absval)
    if isarr(x):
        return _emap(_absf, x)
    if isinstance(x, (int, SI)):
        return builtins.abs(x)
    return ring.absval(x)


def _maxf(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    best = a[0]
    for x in a[1:]:
        if x > best:
            best = x
    return best


def _minf(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    best = a[0]
    for x in a[1:]:
        if x < best:
            best = x
    return best


def _divmod(a, b):
    if isinstance(a, SR) or isinstance(b, SR):
        return _pyfdiv(a, b), _pymod(a, b)
    return builtins.divmod(a, b)


def _sumf(x, start=0):
    if lazy(x):
        return x.sum()
    if hasattr(x, "_symsum"):
        return OPF["__vc_add"](start, x._symsum())
    if getattr(x, "_symiter", False) or isinstance(x, SymRange):
        raise Unsupported("sum over a symbolic extent")
    t = start
    for y in x:
        t = OPF["__vc_add"](t, y)
    return t


def _citer(it):
    from . import lazyarr
    return lazyarr.citer(it)


def _listcomp(th):
    from . import lazyarr
    return lazyarr.listcomp(th)


def _listf(*a):
    if a and (lazy(a[0]) or getattr(a[0], "_symiter", False)):
        from . import lazyarr
        return lazyarr.tolist(a[0])
    return builtins.list(*a)


class Joined:
    """zip or enumerate (part None: the position) of sequences that run together."""
    _symiter = True

    def __init__(self, parts):
        self.parts = parts


def _gathered(x):
    return builtins.bool(GATHERED) and isinstance(x, builtins.list) and builtins.bool(x) and isinstance(x[0], GATHERED[0])


def _joinable(x):
    return _gathered(x) or getattr(x, "_joinable", False) or isinstance(x, Joined)


def _enumerate(x, start=0):
    if _joinable(x) and start == 0:
        return Joined([None, x])
    return builtins.enumerate(x, start)


def _zip(*a):
    if a and all(_joinable(x) for x in a):
        return Joined(builtins.list(a))
    if any(lazy(x) or getattr(x, "_symiter", False) or isinstance(x, SymRange) for x in a):
        from . import pairsum
        return pairsum.zipped(a)
    return builtins.zip(*a)


def _print(*a, **k):
    return None


def _isinst(x, t):
    if isinstance(x, SR):
        ts = t if isinstance(t, tuple) else (t,)
        return any(q in (float, _floatf) for q in ts)
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(int if q is _intf else float if q is _floatf else builtins.list if q is _listf else q for q in ts)
    if getattr(x, "_symiter", False):
        return builtins.list in ts
    if isinstance(x, SI):
        return int in ts
    return builtins.isinstance(x, ts)


def _round(x, n=None):
    if isinstance(x, SR):
        if x.is_const():
            return SR.const(builtins.round(x.cval(), n)) if n is not None else builtins.round(x.cval())
        return sym.rounded(x, n)
    return builtins.round(x, n)


def _npround(x, n=0):
    return _emap(lambda v: SR.const(builtins.round(v.cval(), n)) if SR.lift(v).is_const() else ring.func("round", SR.lift(v), (n,)), x)


def _input(*a):
    return ""


BUILTINS = {
    "__vc_lit": ring.literal, "__vc_iter": _iter, "__vc_while": _while, "__vc_enter": _enter, "__vc_havoc": _havoc, "__vc_after": _after, "__vc_cif": _cif, "__vc_and": _cand, "__vc_or": _cor, "__vc_not": _cnot, "divmod": _divmod, "__vc_astype": _astype, "__vc_citer": _citer, "__vc_lc": _listcomp, "__vc_aug": _aug,
    "len": _len, "range": _range, "int": _intf, "float": _floatf, "abs": _absf, "max": _maxf,
    "min": _minf, "sum": _sumf, "print": _print, "isinstance": _isinst, "round": _round, "input": _input,
    "list": _listf, "zip": _zip, "enumerate": _enumerate,
}
BUILTINS.update(OPF)


# ---- numpy --------------------------------------------------------------------

def _npdot(a, b):
    a, b = toarr(a), toarr(b)
    if lazy(a) or lazy(b):
        return (a if lazy(a) else b)._arr_binop(a, b, "dot")
    if a.ndim == 0 or b.ndim == 0:
        return OPF["__vc_mul"](a, b)
    a, b = _o(a), _o(b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("shapes not aligned")
        t = SR.const(0)
        for x, y in zip(a, b):
            t = t + x * y
        return t
    if a.shape[-1] != b.shape[-2 if b.ndim > 1 else 0]:
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    if a.ndim == 2 and b.ndim == 2:
        out = _np.empty((a.shape[0], b.shape[1]), dtype=object)
        nz = [[(k, a[i, k]) for k in range(a.shape[1]) if not _isz(a[i, k])] for i in range(a.shape[0])]
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                t = SR.const(0)
                for k, x in nz[i]:
                    y = b[k, j]
                    if not _isz(y):
                        t = t + x * y
                out[i, j] = t
        return out
    if a.ndim == 2 and b.ndim == 1:
        return _npdot(a, b.reshape(-1, 1)).reshape(-1)
    if a.ndim == 1 and b.ndim == 2:
        return _npdot(a.reshape(1, -1), b).reshape(-1)
    return _np.dot(a, b)


def _isz(x):
    return isinstance(x, int) and x == 0 or isinstance(x, SR) and not x.t


def _o(a):
    if a.dtype == object:
        b = _np.empty(a.shape, dtype=object)
        for k in _np.ndindex(*a.shape):
            v = SR.lift(a[k])
            b[k] = a[k] if v is None else v
        return b
    return lift_arr(a)


class SpMat:
    """Sparse matrix stand-in held densely; `*` is the matrix product."""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, d):
        self.d = d

    @property
    def shape(self): return self.d.shape

    def toarray(self): return self.d.copy()
    todense = toarray

    def transpose(self): return SpMat(self.d.T)

    @property
    def T(self): return self.transpose()

    def tocsr(self): return self
    tocsc = tocoo = tolil = tocsr

    def __mul__(self, o):
        if isinstance(o, SpMat):
            return SpMat(_npdot(self.d, o.d))
        if isarr(o):
            return _npdot(self.d, o)
        return SpMat(OPF["__vc_mul"](self.d, o))

    def __rmul__(self, o):
        if isarr(o):
            return _npdot(o, self.d)
        return SpMat(OPF["__vc_mul"](o, self.d))

    dot = __mul__
    __matmul__ = __mul__
    __rmatmul__ = __rmul__

    def __add__(self, o):
        if isinstance(o, SpMat):
            return SpMat(OPF["__vc_add"](self.d, o.d))
        return OPF["__vc_add"](self.d, o)

    __radd__ = __add__

    def __neg__(self): return SpMat(-self.d)

    def __getitem__(self, k): return self.d[k]


def _dense(a):
    return a.d if isinstance(a, SpMat) else a


def coo_matrix(arg, shape=None, dtype=None):
    if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
        data, (r, c) = arg
        if lazy(data) or lazy(r):
            from . import lazyarr
            return lazyarr.SymSparse(data, r, c, shape)
        d = zeros(shape)
        data, r, c = toarr(data), toarr(r), toarr(c)
        if not (len(data) == len(r) == len(c)):
            raise ValueError("row, column, and data array must all be the same length")
        for v, i, j in zip(data, r, c):
            d[int(i), int(j)] = d[int(i), int(j)] + SR.lift(v)
        return SpMat(d)
    if isinstance(arg, tuple):
        return SpMat(zeros(arg))
    return SpMat(_o(toarr(arg)))


def _symshape(sh):
    if isinstance(sh, (SI,)):
        return True
    return isinstance(sh, (list, tuple)) and any(isinstance(x, SI) for x in sh)


def _shp(sh):
    if isinstance(sh, (list, tuple, _np.ndarray)):
        for x in sh:
            if isinstance(x, SR):
                raise TypeError("'float' object cannot be interpreted as an integer")
        return tuple(int(x) for x in sh)
    if isinstance(sh, SR):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (int(sh),)


CREATED = []


def _filled(sh, v):
    a = _np.empty(_shp(sh), dtype=object)
    if sym.CTX is not None and sym.CTX.user.get("track"):
        CREATED.append(a)
    for k in _np.ndindex(*a.shape):
        a[k] = v() if callable(v) else v
    return a


ZEROS_HOOK = [None]


def zeros(shape, dtype=float, **k):
    if _symshape(shape):
        if ZEROS_HOOK[0] is not None:
            r = ZEROS_HOOK[0](shape)
            if r is not None:
                return r
        from . import lazyarr
        return lazyarr.const(shape, SR.const(0))
    if dtype in (int, "int", _intf, bool):
        return _np.zeros(_shp(shape), dtype=int if dtype is not bool else bool)
    return _filled(shape, SR.const(0))


_un = [0]


def empty(shape, dtype=float, **k):
    if _symshape(shape):
        from . import lazyarr
        return lazyarr.uninit(shape)
    if dtype in (int, _intf, "int"):
        return _np.zeros(_shp(shape), dtype=int)

    def fresh():
        _un[0] += 1
        return ring.free("uninit%d" % _un[0], meta="uninit")
    return _filled(shape, fresh)


class _Linalg:
    @staticmethod
    def norm(x, axis=None, ord=None):
        if lazy(x):
            return x.norm(axis)
        x = _o(toarr(x))
        sq = _emap(lambda a: a * a, x)
        if axis is None:
            t = SR.const(0)
            for v in sq.ravel():
                t = t + v
            return ring.sqrt(t)
        return _emap(ring.sqrt, _np.sum(sq, axis=axis)) if sq.ndim > 1 else ring.sqrt(sum(sq, SR.const(0)))

    INV = [None]
    SOLVE = [None]

    @staticmethod
    def inv(m):
        if _Linalg.INV[0] is not None:
            return _Linalg.INV[0](m)
        return exact_inv(_o(toarr(m)))

    @staticmethod
    def solve(m, b):
        if _Linalg.SOLVE[0] is not None:
            return _Linalg.SOLVE[0](m, b)
        m, b = _o(toarr(_dense(m))), _o(toarr(b))
        return _npdot(exact_inv(m), b)

    @staticmethod
    def cond(m):
        raise Unsupported("cond")


def exact_inv(m):
    """Exact inverse of a matrix of constants / small symbolic matrices."""
    n = m.shape[0]
    if m.shape != (n, n):
        raise ValueError("not square")
    if n == 3 and not all(SR.lift(x).is_const() for x in m.ravel()):
        a = [[SR.lift(m[i, j]) for j in range(3)] for i in range(3)]
        cof = [[a[(i + 1) % 3][(j + 1) % 3] * a[(i + 2) % 3][(j + 2) % 3] - a[(i + 1) % 3][(j + 2) % 3] * a[(i + 2) % 3][(j + 1) % 3]
                for j in range(3)] for i in range(3)]
        det = sum((a[0][j] * cof[0][j] for j in range(3)), SR.const(0))
        if not det.t or det.is_zero():
            raise _np.linalg.LinAlgError("Singular matrix")
        iv = det.inv()
        out = _np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                out[i, j] = cof[j][i] * iv
        return out
    A = [[SR.lift(m[i, j]) for j in range(n)] + [SR.const(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if A[r][c].is_const() and A[r][c].t:
                p = r
                break
        if p is None:
            for r in range(c, n):
                if A[r][c].t and not A[r][c].is_zero():
                    p = r
                    break
        if p is None:
            raise _np.linalg.LinAlgError("Singular matrix")
        A[c], A[p] = A[p], A[c]
        iv = A[c][c].inv()
        A[c] = [x * iv if x.t else x for x in A[c]]
        for r in range(n):
            if r != c and A[r][c].t:
                f = A[r][c]
                A[r] = [x - f * y if y.t else x for x, y in zip(A[r], A[c])]
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = A[i][n + j]
    return out


def _where(cond, *xy):
    if lazy(cond):
        return cond.where(*xy)
    cond = _np.asarray(toarr(cond))
    b = _np.empty(cond.shape, dtype=bool)
    for k in _np.ndindex(*cond.shape):
        b[k] = bool(cond[k])
    if not xy:
        return _np.nonzero(b)
    x, y = [toarr(v) for v in xy]
    bb = _np.broadcast_arrays(b, x, y)
    out = _np.empty(bb[0].shape, dtype=object)
    for k in _np.ndindex(*out.shape):
        out[k] = bb[1][k] if bb[0][k] else bb[2][k]
    return out


def _concat(seq, axis=0, **k):
    if anylazy([seq]) or lazy(seq):
        from . import lazyarr
        return lazyarr.concatenate(seq, axis)
    arrs = [toarr(a) for a in seq]
    if any(a.dtype == object for a in arrs):
        arrs = [_o(a) if a.dtype.kind != "U" else a for a in arrs]
    return _np.concatenate(arrs, axis=axis)


def _append(a, b, axis=None):
    if anylazy([a, b]):
        from . import lazyarr
        return lazyarr.append(a, b, axis)
    a, b = toarr(a), toarr(b)
    if axis is None:
        a, b = a.ravel(), b.ravel()
        axis = 0
    return _concat([a, b], axis)


def _sum(x, axis=None, **k):
    if lazy(x):
        return x.sum(axis)
    x = toarr(x)
    if x.dtype != object:
        return x.sum(axis=axis) if axis is not None else x.sum()
    x = _o(x)
    if axis is None:
        t = SR.const(0)
        for v in x.ravel():
            t = t + v
        return t
    return _np.add.reduce(x, axis=axis)


def _cross(a, b):
    a, b = toarr(a), toarr(b)
    if lazy(a) or lazy(b):
        from . import lazyarr
        return lazyarr.cross(a, b)
    a, b = _o(a), _o(b)
    if a.ndim == 1 and b.ndim == 1:
        return _mk([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    a, b = _np.broadcast_arrays(a, b)
    out = _np.empty(a.shape, dtype=object)
    for k in _np.ndindex(*a.shape[:-1]):
        out[k] = _cross(a[k], b[k])
    return out


INTERP_HOOK = [None]


def _interp(x, xp, fp, left=None, right=None):
    if INTERP_HOOK[0] is None or left is not None or right is not None:
        raise Unsupported("interp")
    return INTERP_HOOK[0](x, toarr(xp), toarr(fp))


def _triu(m, k=0):
    if lazy(m):
        return m.triu(k)
    m = _dense(m)
    out = m.copy()
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j - i < k:
                out[i, j] = SR.const(0)
    return out


def _tril(m, k=0):
    out = m.copy()
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j - i > k:
                out[i, j] = SR.const(0)
    return out


def _diag(v, k=0):
    v = toarr(v)
    if lazy(v):
        if k != 0 or len(v.shape) != 1:
            raise Unsupported("diag")
        from . import lazyarr
        return lazyarr.LArr((v.shape[0],) * 2, lambda o: v.get((o[0],)) if lazyarr.eq(o[0], o[1]) else SR.const(0))
    v = _o(v)
    if v.ndim == 1:
        n = len(v)
        out = zeros((n, n))
        for i in range(n):
            out[i, i] = v[i]
        return out
    return _mk([v[i, i] for i in range(min(v.shape))])


def _eye(n, *a, **k):
    n = _shp(n)[0]
    out = zeros((n, n))
    for i in range(n):
        out[i, i] = SR.const(1)
    return out


def _anyf(x, axis=None):
    if lazy(x):
        return x.any()
    x = toarr(x)
    if axis is not None:
        return _np.any(_np.array(x, dtype=bool), axis=axis)
    for v in x.ravel():
        if v:
            return True
    return False


def _allf(x, axis=None):
    x = toarr(x)
    if axis is not None:
        return _np.all(_np.array(x, dtype=bool), axis=axis)
    for v in x.ravel():
        if not v:
            return False
    return True


def _array_equal(a, b):
    a, b = toarr(a), toarr(b)
    if lazy(a) or lazy(b):
        raise Unsupported("array_equal")
    if a.shape != b.shape:
        return False
    if a.size < 10 and sym.CTX is not None and any(isinstance(x, SR) for v in (a, b) for x in v.ravel()):
        d = [SR.lift(x) - SR.lift(y) for x, y in zip(a.ravel(), b.ravel())]
        if all(isinstance(x, SR) for x in d):
            tot = SR.const(0)
            for x in d:
                tot = tot + x * x
            if tot.t and sym.known_sign(tot) == 1 and not _may_vanish(tot):
                return False
    for x, y in zip(a.ravel(), b.ravel()):
        if not (x == y):
            return False
    return True


def _may_vanish(d):
    return 0 in sym._allowed(d)[3]


def _isclose(a, b, rtol="1e-05", atol="1e-08"):
    rtol, atol = (SR.lift(ring.literal(v)) if isinstance(v, str) else SR.lift(v) for v in (rtol, atol))
    return _emap(lambda x, y: bool(abs(SR.lift(x) - SR.lift(y)) <= atol + rtol * abs(SR.lift(y))), a, b)


def _s(x):
    return x


class _S:
    def __getitem__(self, k): return k


def _outer(a, b):
    a, b = _o(toarr(a)).ravel(), _o(toarr(b)).ravel()
    out = _np.empty((len(a), len(b)), dtype=object)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i, j] = x * y
    return out


def _mean(x, axis=None):
    x = _o(toarr(x))
    n = x.size if axis is None else x.shape[axis]
    return OPF["__vc_div"](_sum(x, axis), n)


def _tile(a, reps):
    if lazy(a) or _symshape(reps):
        from . import lazyarr
        return lazyarr.tile(a, reps)
    return _np.tile(toarr(a), reps)


def _unary(f):
    def g(x, *a, **k):
        if lazy(x):
            return x._emap1(f)
        if isinstance(x, (list, tuple)):
            x = toarr(x)
        return _emap(lambda v: f(SR.lift(v)), x)
    return g


def _copy(x):
    if lazy(x):
        return x.copy()
    return toarr(x).copy() if not isinstance(x, (SR, SI)) else x


def _nparray(x, dtype=None, **k):
    if isinstance(x, SymRange):
        from . import lazyarr
        return lazyarr._lazied(x)
    if hasattr(x, "_to_lazy"):
        return x._to_lazy()
    if hasattr(x, "_to_arr"):
        return toarr(x._to_arr())
    if lazy(x):
        return x.copy()
    if isinstance(x, (list, tuple)) and any(hasattr(y, "_to_lazy") for y in x):
        return toarr(x)
    if anylazy([x]) and isinstance(x, (list, tuple)):
        from . import lazyarr
        return lazyarr.stack(x)
    if x is None or isinstance(x, (dict, set)):
        raise Unsupported("array of %r" % type(x))
    if dtype is object:
        return _np.array(x, dtype=object)
    a = toarr(x, dtype)
    if isinstance(x, _np.ndarray):
        a = a.copy()
    return a


def _asarray(x, dtype=None):
    if lazy(x):
        return x
    return toarr(x, dtype)


def _extremum(fn):
    def g(x, axis=None, initial=None):
        x = toarr(x)
        if lazy(x):
            raise Unsupported("max of a symbolic-size array")
        ini = [] if initial is None else [SR.lift(initial)]
        if axis is None:
            v = list(x.ravel()) + ini
            if not v:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return fn(v)
        x = _np.moveaxis(_o(x), axis, -1)
        out = _np.empty(x.shape[:-1], dtype=object)
        for k in _np.ndindex(*out.shape):
            out[k] = fn(list(x[k]) + ini)
        return out
    return g


_npmax, _npmin = _extremum(lambda v: _maxf(v)), _extremum(lambda v: _minf(v))


def _npmod(a, b):
    return OPF["__vc_mod"](toarr(a) if isinstance(a, list) else a, toarr(b) if isinstance(b, list) else b)


def _in1d(a, b):
    if lazy(a) or lazy(b):
        from . import preds
        return preds.in1d(a, b)
    a, b = toarr(a), toarr(b)
    return _np.array([_anyf(_mk([bool(x == y) for y in b.ravel()])) if b.size else False for x in a.ravel()], dtype=bool)


def _setdiff(a, b):
    return _np.setdiff1d(_np.array(a, dtype=int), _np.array(b, dtype=int))


def _einsum(spec, *ops):
    ops = [_o(toarr(o)) for o in ops]
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    summed = [c for c in dims if c not in out]
    res = _np.empty([dims[c] for c in out], dtype=object)
    import itertools
    for k in _np.ndindex(*res.shape):
        env = dict(zip(out, k))
        t = SR.const(0)
        for sk in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sk))
            v = SR.const(1)
            for s, o in zip(ins, ops):
                v = v * o[tuple(env[c] for c in s)]
            t = t + v
        res[k] = t
    return res if out else res[()]


class _Random:
    HOOK = [None]

    def __getattr__(self, n):
        if _Random.HOOK[0] is None:
            raise Unsupported("np.random.%s" % n)
        return getattr(_Random.HOOK[0], n)


class _Distances:
    """Distances of all pairs of rows, until squareform lays them out."""
    def __init__(self, x):
        self.x = x


def pdist(X, *a, **k):
    if lazy(X) and not a and not k:
        return _Distances(X)
    X = _o(toarr(X))
    out = []
    for i in range(X.shape[0]):
        for j in range(i + 1, X.shape[0]):
            out.append(_Linalg.norm(OPF["__vc_sub"](X[i], X[j])))
    return toarr(out) if out else zeros(0)


def cdist(X, Y, *a, **k):
    X, Y = _o(toarr(X)), _o(toarr(Y))
    out = zeros((X.shape[0], Y.shape[0]))
    for i in range(X.shape[0]):
        for j in range(Y.shape[0]):
            out[i, j] = _Linalg.norm(OPF["__vc_sub"](X[i], Y[j]))
    return out


def squareform(v):
    if isinstance(v, _Distances):
        from . import lazyarr
        return OPF["__vc_sub"](v.x, v.x[:, None]).norm(2)
    v = toarr(v)
    if v.ndim == 2:
        n = v.shape[0]
        return _mk([v[i, j] for i in range(n) for j in range(i + 1, n)])
    n = int((1 + math.isqrt(1 + 8 * len(v))) // 2)
    out = zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            out[i, j] = out[j, i] = v[k]
            k += 1
    return out


class NPFacade:
    def __init__(self):
        self.linalg = _Linalg()
        self.random = _Random()
        self.overrides = {}

    T = dict(
        array=_nparray, asarray=_asarray, zeros=zeros, empty=empty, dot=_npdot, matmul=_matmul,
        sqrt=_unary(ring.sqrt), exp=_unary(lambda x: ring.func("exp", x)), sin=_unary(ring.sin),
        cos=_unary(ring.cos), log=_unary(lambda x: ring.func("log", x)), abs=_absf, absolute=_absf, fabs=_absf,
        round=_npround, around=_npround,
        arccos=_unary(lambda x: ring.func("acos", x)),
        arctan2=lambda y, x: _emap(lambda a, b: ring.func("atan2", SR.lift(a), SR.lift(b)), y, x),
        concatenate=_concat, append=_append, where=_where, sum=_sum, min=_npmin, max=_npmax, amin=_npmin, amax=_npmax,
        cross=_cross, triu=_triu, tril=_tril, mod=_npmod, remainder=_npmod, isclose=_isclose, diag=_diag,
        allclose=lambda a, b, **k: _allf(_isclose(toarr(a), toarr(b))),
        array_equal=_array_equal, interp=_interp, tile=_tile, identity=_eye, eye=_eye,
        outer=_outer, mean=_mean, in1d=_in1d, isin=_in1d, any=_anyf, all=_allf, copy=_copy, einsum=_einsum,
        nonzero=lambda x: _where(x), transpose=lambda x: x.T if not lazy(x) else x.transpose(),
        ravel=lambda x: toarr(x).ravel(), reshape=lambda x, s: toarr(x).reshape(s),
        logical_and=lambda a, b: a & b if lazy(a) or lazy(b) else _np.logical_and(_np.array(a, dtype=bool), _np.array(b, dtype=bool)),
        logical_or=lambda a, b: a | b if lazy(a) or lazy(b) else _np.logical_or(_np.array(a, dtype=bool), _np.array(b, dtype=bool)),
        logical_not=lambda a: ~a if lazy(a) else _np.logical_not(_np.array(a, dtype=bool)),
        vstack=lambda s: _concat([toarr(a).reshape(1, -1) if toarr(a).ndim == 1 else toarr(a) for a in s], 0),
        hstack=lambda s: _concat(s, 1 if toarr(s[0]).ndim > 1 else 0),
        roll=lambda a, n, axis=None: _np.roll(toarr(a), n, axis), floor=_unary(sym.floor),
        arange=lambda *a: _np.arange(*a), ones=lambda s, *a, **k: _filled(s, SR.const(1)),
        full=lambda s, v, **k: _filled(s, SR.lift(v)), zeros_like=lambda a, **k: zeros(toarr(a).shape),
        empty_like=lambda a, **k: empty(toarr(a).shape), ones_like=lambda a, **k: _filled(toarr(a).shape, SR.const(1)),
        flatnonzero=lambda x: _where(x)[0], repeat=lambda a, n, axis=None: _np.repeat(toarr(a), n, axis),
        setdiff1d=_setdiff, size=lambda a: toarr(a).size, shape=lambda a: toarr(a).shape,
        minimum=lambda a, b: _emap(lambda x, y: x if x < y else y, a, b),
        maximum=lambda a, b: _emap(lambda x, y: x if x > y else y, a, b),
        vdot=_npdot, inner=_npdot, square=lambda x: OPF["__vc_mul"](x, x), trace=lambda a: _sum(_diag(a)),
        add=OPF["__vc_add"], subtract=OPF["__vc_sub"], multiply=OPF["__vc_mul"], divide=OPF["__vc_div"],
        true_divide=OPF["__vc_div"], negative=lambda a: -a, power=OPF["__vc_pow"],
        ndarray=_np.ndarray, float64=_floatf, int64=_intf, newaxis=None, nan=None,
        squeeze=lambda a: toarr(a).squeeze(), unique=_np.unique, argwhere=lambda x: _np.argwhere(_np.array(x, dtype=bool)),
        atleast_1d=lambda a: _np.atleast_1d(toarr(a)), atleast_2d=lambda a: _np.atleast_2d(toarr(a)),
        linspace=None, fill_diagonal=_np.fill_diagonal, ix_=_np.ix_, triu_indices=_np.triu_indices,
        tril_indices=_np.tril_indices, block=None, ndenumerate=_np.ndenumerate, ndindex=_np.ndindex,
        expand_dims=lambda a, ax: _np.expand_dims(toarr(a), ax), stack=lambda s, axis=0: _np.stack([toarr(a) for a in s], axis),
        column_stack=lambda s: _np.column_stack([_o(toarr(a)) for a in s]), swapaxes=lambda a, i, j: toarr(a).swapaxes(i, j),
        bool_=bool, inf=None, set_printoptions=lambda **k: None, savetxt=lambda *a, **k: None,
        delete=lambda a, i, axis=None: _np.delete(toarr(a), i, axis), diagonal=lambda a: _diag(a),
        count_nonzero=lambda a: int(_np.count_nonzero(_np.array(a, dtype=bool))), sort=None, prod=None,
        rad2deg=None, hypot=lambda a, b: ring.sqrt(SR.lift(a) ** 2 + SR.lift(b) ** 2),
        flip=lambda a, axis=None: _np.flip(toarr(a), axis), ascontiguousarray=_asarray,
    )

    @property
    def pi(self): return ring.PI

    @property
    def s_(self): return _S()

    def load(self, f, **k):
        d = _np.load(f, **k)
        return d

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.__dict__.get("overrides", {}):
            return self.overrides[n]
        v = NPFacade.T.get(n)
        if v is None and n not in ("newaxis",):
            def bad(*a, **k):
                raise Unsupported("numpy.%s" % n)
            return bad
        return v

    # ---- import hook ---------------------------------------------------------
    def external(self, name, fromlist):
        if name == "numpy":
            return self
        if name == "numpy.linalg":
            return self.linalg if fromlist else self
        if name == "numba":
            if "numba" in self.__dict__:
                return self.__dict__["numba"]
            m = self.__dict__["numba"] = types.ModuleType("numba")

            def deco(*a, **k):
                if len(a) == 1 and callable(a[0]):
                    return a[0]
                return lambda f: f
            m.njit = m.jit = m.vectorize = deco
            m.prange = _range
            m.config = types.SimpleNamespace(DISABLE_JIT=True)
            return m
        if name.startswith("scipy"):
            m = types.ModuleType(name)
            m.coo_matrix = m.csr_matrix = m.csc_matrix = m.lil_matrix = coo_matrix
            m.pdist, m.squareform, m.cdist = pdist, squareform, cdist
            m.sqrt = NPFacade.T["sqrt"]
            m.solve = self.linalg.solve
            m.inv = self.linalg.inv
            m.erfc = _unary(lambda x: ring.func("erfc", x))
            m.zeta = lambda *a: ring.func("zeta", *[SR.lift(x) for x in a])
            m.sparse = m
            m.spatial = m
            m.distance = m
            m.linalg = m
            m.special = m
            m.issparse = lambda x: isinstance(x, SpMat)
            m.spsolve = self.linalg.solve
            return m
        if name == "math":
            m = types.ModuleType("math")
            m.erfc = lambda x: ring.func("erfc", SR.lift(x))
            m.sqrt, m.exp, m.cos, m.sin = ring.sqrt, lambda x: ring.func("exp", SR.lift(x)), ring.cos, ring.sin
            m.pi = ring.PI
            m.floor = lambda x: _intf(sym.floor(SR.lift(x)))
            m.acos = lambda x: ring.func("acos", SR.lift(x))
            m.atan2 = lambda y, x: ring.func("atan2", SR.lift(y), SR.lift(x))
            m.log = lambda x: ring.func("log", SR.lift(x))
            m.fabs = _absf
            m.comb, m.factorial, m.gcd = math.comb, math.factorial, math.gcd
            return m
        if name.split(".")[0] in ("matplotlib", "psutil", "smtplib", "mpl_toolkits", "cProfile", "pstats", "resource"):
            m = types.ModuleType(name)
            m.__getattr__ = lambda n: (lambda *a, **k: None)
            return m
        if name == "__future__":
            return None
        return None
