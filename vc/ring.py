"""Exact symbolic reals.

An SR is a Laurent polynomial with rational coefficients over *generators*:

  free   a universally quantified real (optionally known positive)
  alg    g with g**deg = rel (deg 2: square root, deg 1: name for a divisor)
  fn     an opaque function value f(args), identified by its arguments

Zero testing clears negative exponents of algebraic generators and reduces by
their defining relations; it is exact (a zero result is a proof of equality
wherever all divisors are non-zero).  A non-zero normal form is confirmed by
high precision evaluation before anything is called refuted.
"""
from fractions import Fraction
import mpmath

mpmath.mp.dps = 40


def _c(q):
    """Canonical coefficient: int when possible."""
    if type(q) is Fraction and q.denominator == 1:
        return q.numerator
    return q


class Gen:
    __slots__ = ("gid", "name", "kind", "deg", "rel", "pos", "fn", "args", "nonneg", "meta")

    def __init__(self, name, kind, deg=0, rel=None, pos=False, fn=None, args=None, nonneg=False, meta=None):
        self.name = name
        self.kind = kind
        self.deg = deg
        self.rel = rel
        self.pos = pos
        self.nonneg = nonneg or pos
        self.fn = fn
        self.args = args
        self.meta = meta
        self.gid = len(GENS)
        GENS.append(self)

    def __repr__(self):
        return self.name


GENS = []
_sqrtc = {}
_algs = []
_defs = {}
_fns = {}
_absd = {}


def reset():
    """Forget every generator (used between independent harnesses)."""
    GENS.clear(); _sqrtc.clear(); _algs.clear(); _defs.clear(); _fns.clear(); _absd.clear(); _fnkey.clear()
    _mm.clear(); _free.clear()
    global PI
    PI = SR.gen(Gen("pi", "free", pos=True, meta="pi"))


_mm = {}


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is not None:
        return r
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x); i += 1
        elif x[0] > y[0]:
            out.append(y); j += 1
        else:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1; j += 1
    out.extend(a[i:]); out.extend(b[j:])
    r = tuple(out)
    if len(_mm) > 2000000:
        _mm.clear()
    _mm[k] = r
    return r


def _padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c)
        if v:
            r[m] = _c(v)
        else:
            r.pop(m, None)
    return r


def _pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = _c(v)
            else:
                del r[m]
    return _reduce(r)


def _ppow(p, n):
    r = {(): 1}
    b = p
    while n:
        if n & 1:
            r = _pmul(r, b)
        n >>= 1
        if n:
            b = _pmul(b, b)
    return r


def _needs(m):
    for g, e in m:
        G = GENS[g]
        if G.kind == "alg":
            if e >= G.deg:
                return g
            if e < 0 and G.meta == "const":
                return g
    return None


def _reduce(p):
    """Rewrite g**e (e >= deg) by the defining relation."""
    if not any(_needs(m) is not None for m in p):
        return p
    todo = list(p.items())
    out = {}
    while todo:
        m, c = todo.pop()
        g = _needs(m)
        if g is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = _c(v)
            else:
                out.pop(m, None)
            continue
        G = GENS[g]
        e = dict(m)[g]
        rest = tuple(x for x in m if x[0] != g)
        if e < 0:                      # rational square roots only
            q = G.rel[()]
            k = (-e + 1) // 2
            e += 2 * k
            c = c / Fraction(q) ** k
            m2 = _mmul(rest, ((g, e),)) if e else rest
            todo.append((m2, _c(c)))
            continue
        k, e2 = divmod(e, G.deg)
        rp = _ppow(G.rel, k)
        base = _mmul(rest, ((g, e2),)) if e2 else rest
        for m2, c2 in rp.items():
            todo.append((_mmul(base, m2), c * c2))
    return out


def _clear(p):
    """Clear negative exponents of algebraic generators, highest first."""
    while True:
        neg = {}
        for m in p:
            for g, e in m:
                if e < 0 and GENS[g].kind == "alg":
                    if e < neg.get(g, 0):
                        neg[g] = e
        if not neg:
            return p
        g = max(neg)
        k = -neg[g]
        G = GENS[g]
        if G.deg == 2 and k % 2:
            pass
        f = ((g, k),)
        # multiply without reducing g twice
        q = {}
        for m, c in p.items():
            mm = _mmul(m, f)
            q[mm] = q.get(mm, 0) + c
            if not q[mm]:
                del q[mm]
        p = _reduce(q)
        if not p:
            return p


def _iszero(p):
    if not p:
        return True
    return not _clear(_reduce(p))


class Unsupported(Exception):
    """The engine has no meaning for this construct (never a violation)."""


class SR:
    __slots__ = ("t",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # construction -------------------------------------------------------
    @staticmethod
    def const(q):
        q = _c(Fraction(q))
        return SR({(): q} if q else {})

    @staticmethod
    def gen(g):
        return SR({((g.gid, 1),): 1})

    @staticmethod
    def lift(x):
        if isinstance(x, SR):
            return x
        if isinstance(x, bool):
            return SR.const(int(x))
        if isinstance(x, (int, Fraction)):
            return SR.const(x)
        tn = type(x).__name__
        if tn.startswith("int") or tn.startswith("uint"):
            return SR.const(int(x))
        if tn == "bool_" or tn == "bool":
            return SR.const(int(x))
        if isinstance(x, float) or tn.startswith("float"):
            return literal(repr(float(x)))
        if hasattr(x, "_as_SR"):
            return x._as_SR()
        return None

    # queries ------------------------------------------------------------
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return Fraction(self.t.get((), 0))

    def is_zero(self):
        return _iszero(self.t)

    def gens(self):
        s = set()
        for m in self.t:
            for g, e in m:
                s.add(g)
        return s

    def free_gens(self):
        seen, out, st = set(), set(), list(self.gens())
        while st:
            g = st.pop()
            if g in seen:
                continue
            seen.add(g)
            G = GENS[g]
            if G.kind == "free":
                out.add(g)
            elif G.kind == "alg":
                st.extend(SR(G.rel).gens())
            else:
                for a in G.args:
                    if isinstance(a, SR):
                        st.extend(a.gens())
        return out

    # arithmetic ----------------------------------------------------------
    def _bin(self, o):
        return SR.lift(o)

    def __add__(self, o):
        q = SR.lift(o)
        if q is None:
            return _arr(self, o, "add")
        return SR(_padd(self.t, q.t))

    def __radd__(self, o):
        q = SR.lift(o)
        if q is None:
            return _arr(o, self, "add")
        return SR(_padd(q.t, self.t))

    def __sub__(self, o):
        q = SR.lift(o)
        if q is None:
            return _arr(self, o, "sub")
        return SR(_padd(self.t, q.t, -1))

    def __rsub__(self, o):
        q = SR.lift(o)
        if q is None:
            return _arr(o, self, "sub")
        return SR(_padd(q.t, self.t, -1))

    def __mul__(self, o):
        q = SR.lift(o)
        if q is None:
            return _arr(self, o, "mul")
        return SR(_pmul(self.t, q.t))

    def __rmul__(self, o):
        q = SR.lift(o)
        if q is None:
            return _arr(o, self, "mul")
        return SR(_pmul(q.t, self.t))

    def __truediv__(self, o):
        q = SR.lift(o)
        if q is None:
            return _arr(self, o, "div")
        return SR(_pmul(self.t, q.inv().t))

    def __rtruediv__(self, o):
        q = SR.lift(o)
        if q is None:
            return _arr(o, self, "div")
        return q * self.inv()

    def __neg__(self):
        return SR({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def inv(self):
        if not self.t:
            raise ZeroDivisionError("symbolic division by exact zero")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return SR(_reduce({tuple((g, -e) for g, e in m): _c(Fraction(1) / c)}))
        p = _clear(self.t) if False else self.t
        # pull out content and common monomial
        mins = {}
        first = True
        for m in p:
            d = dict(m)
            if first:
                mins = d
                first = False
            else:
                mins = {g: min(e, d.get(g, 0)) for g, e in list(mins.items()) + [(g, 0) for g in d if g not in mins]}
        # gens missing in some monomial have min <= 0
        for m in p:
            d = dict(m)
            for g in list(mins):
                if g not in d:
                    mins[g] = min(mins[g], 0)
        common = tuple(sorted((g, e) for g, e in mins.items() if e))
        invc = tuple((g, -e) for g, e in common)
        q = {_mmul(m, invc): c for m, c in p.items()}
        lead = max(q)
        lc = Fraction(q[lead])
        q = {m: _c(Fraction(c) / lc) for m, c in q.items()}
        q = _reduce(q)
        if len(q) == 1:
            base = SR(q).inv()
        else:
            key = tuple(sorted(q.items()))
            g = _defs.get(key)
            if g is None:
                if _iszero(q):
                    raise ZeroDivisionError("symbolic division by exact zero")
                pos = _sign_static(q) == 1
                g = Gen("(%s)" % SR(q).short(), "alg", 1, q, pos=pos)
                _defs[key] = g
            base = SR({((g.gid, -1),): 1})
        return SR(_pmul(base.t, _reduce({invc: _c(1 / lc)})))

    def __pow__(self, n):
        q = SR.lift(n)
        if q is None or not q.is_const():
            if q is not None and self.is_const():
                raise Unsupported("constant to symbolic power")
            raise Unsupported("symbolic exponent")
        q = q.cval()
        if q.denominator == 1:
            k = int(q)
            if k >= 0:
                return SR(_ppow(self.t, k))
            return SR(_ppow(self.inv().t, -k))
        if q.denominator == 2:
            return sqrt(self) ** int(2 * q)
        if q.denominator == 3:
            return cbrt(self) ** int(3 * q)
        raise Unsupported("exponent %s" % q)

    def __rpow__(self, o):
        q = SR.lift(o)
        if q is None:
            raise Unsupported("pow")
        return q ** self

    def __abs__(self):
        return absval(self)

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        if all(GENS[g].meta in ("const", "pi") for g in self.gens()):
            return float(self.eval({}))
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            # the program used a float where Python needs an integer
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __hash__(self):
        return hash(tuple(sorted(self.t.items())))

    # comparisons are supplied by vc.sym (they fork the path)
    def _cmp(self, o, op):
        from . import sym
        q = SR.lift(o)
        if q is None:
            if hasattr(o, "shape"):
                return sym.arr_cmp(self, o, op)
            if op == "==":
                return False
            if op == "!=":
                return True
            raise Unsupported("comparison with %r" % (type(o),))
        return sym.real_cmp(self - q, op)

    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __bool__(self):
        return bool(self != 0)

    # numpy-ish helpers on object scalars
    def sqrt(self): return sqrt(self)
    def exp(self): return func("exp", self)
    def cos(self): return cos(self)
    def sin(self): return sin(self)
    def log(self): return func("log", self)
    def conjugate(self): return self
    def copy(self): return self
    def item(self): return self

    def astype(self, *_a, **_k): return self

    @property
    def real(self): return self

    @property
    def shape(self): return ()

    @property
    def ndim(self): return 0

    def __mod__(self, o):
        from . import sym
        return sym.mod(self, o)

    def __rmod__(self, o):
        from . import sym
        return sym.mod(SR.lift(o), self)

    def __floordiv__(self, o):
        from . import sym
        return sym.floor(self / o)

    def __divmod__(self, o):
        f = self // o
        return f, self - f * o

    def __round__(self, n=None):
        from . import sym
        return sym.rounded(self, n)

    def __format__(self, spec):
        from . import facade
        if self.is_const():
            return format(float(self.cval()), spec)
        return facade.token(self, spec)

    # calculus --------------------------------------------------------------
    def diff(self, x):
        """Partial derivative with respect to free generator x (SR or Gen)."""
        g0 = x if isinstance(x, Gen) else GENS[next(iter(x.gens()))]
        return _diff(self, g0.gid, {})

    def subs(self, mp):
        """Substitute generators (gid -> SR), rebuilding dependents."""
        return _subs(self, mp, {})

    # evaluation ---------------------------------------------------------------
    def eval(self, env, memo=None):
        """mpmath evaluation; env: gid -> number."""
        memo = {} if memo is None else memo
        tot = mpmath.mpf(0)
        for m, c in self.t.items():
            v = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
            for g, e in m:
                v *= _geval(g, env, memo) ** e
            tot += v
        return tot

    def feval(self, env, memo=None):
        return float(self.eval(env, memo))

    def short(self, n=200):
        s = self.pretty()
        return s if len(s) <= n else s[:n] + "..."

    def pretty(self):
        if not self.t:
            return "0"
        parts = []
        for m, c in list(self.t.items())[:60]:
            ms = "*".join(GENS[g].name + ("" if e == 1 else "^%d" % e) for g, e in m)
            parts.append(("%s*%s" % (c, ms)) if ms and c != 1 else (ms or str(c)))
        return " + ".join(parts)

    __repr__ = short
    __str__ = short


def _arr(a, b, op):
    """scalar (op) array-like: numpy object arrays and our own arrays."""
    import numpy as np
    other = b if isinstance(a, SR) else a
    if hasattr(other, "_arr_binop"):
        return other._arr_binop(a, b, op)
    if isinstance(other, (list, tuple)):
        return NotImplemented
    if isinstance(other, np.ndarray):
        o = other.astype(object)
        s = a if isinstance(a, SR) else b
        out = np.empty(o.shape, dtype=object)
        for k in np.ndindex(*o.shape):
            l, r = (s, o[k]) if s is a else (o[k], s)
            out[k] = {"add": lambda: l + r, "sub": lambda: l - r, "mul": lambda: l * r,
                      "div": lambda: div(l, r)}[op]()
        return out if out.shape else out[()]
    return NotImplemented


def div(a, b):
    """True division without rounding."""
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool):
        return SR.const(Fraction(a) / Fraction(b))
    if isinstance(a, bool) or isinstance(b, bool):
        return div(int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b)
    return a / b


def _geval(g, env, memo):
    if g in memo:
        return memo[g]
    G = GENS[g]
    if G.meta == "pi":
        v = mpmath.pi
    elif g in env:
        v = env[g]
        v = mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpmath.mpf(v)
    elif G.kind == "alg":
        v = SR(G.rel).eval(env, memo)
        if G.deg == 2:
            if G.fn == "trig":
                v = _fneval("sin", [a.eval(env, memo) for a in G.args])
            elif G.fn == "abs":
                v = abs(SR.eval(G.args[0], env, memo))
            else:
                v = mpmath.sqrt(v)
        elif G.deg == 3:
            v = mpmath.cbrt(v)
    elif G.kind == "fn":
        v = _fneval(G.fn, [a.eval(env, memo) if isinstance(a, SR) else a for a in G.args], G)
    else:
        raise KeyError("no value for %s" % G.name)
    memo[g] = v
    return v


UF_EVAL = {}


def _fneval(fn, a, G=None):
    if fn in UF_EVAL:
        return UF_EVAL[fn](*a)
    if fn == "atan2":
        return mpmath.atan2(a[0], a[1])
    if fn == "floor":
        return mpmath.floor(a[0])
    if fn == "round":
        q = mpmath.mpf(10) ** a[1][0]
        return mpmath.nint(a[0] * q) / q
    return getattr(mpmath, fn)(*a)


def _diff(e, gid, memo):
    out = {}
    res = SR(out)
    acc = SR({})
    for m, c in e.t.items():
        for k, (g, ex) in enumerate(m):
            dg = _gdiff(g, gid, memo)
            if dg is None or not dg.t:
                continue
            rest = m[:k] + (((g, ex - 1),) if ex != 1 else ()) + m[k + 1:]
            acc = SR(_padd(acc.t, _pmul(_reduce({rest: _c(c * ex)}), dg.t)))
    return acc


def _gdiff(g, gid, memo):
    if g in memo:
        return memo[g]
    G = GENS[g]
    if g == gid:
        r = SR.const(1)
    elif G.kind == "free":
        r = None
    elif G.kind == "alg":
        d = _diff(SR(G.rel), gid, memo)
        if not d.t:
            r = None
        elif G.deg == 1:
            r = d
        elif G.fn == "trig":
            # G is sin(arg), args[1] is cos(arg)
            r = _diff(G.args[0], gid, memo) * G.meta
        else:
            r = d * SR.const(Fraction(1, G.deg)) * SR({((g, 1 - G.deg),): 1})
    else:
        a = G.args
        da = [_diff(x, gid, memo) if isinstance(x, SR) else SR({}) for x in a]
        if all(not d.t for d in da):
            r = None
        elif G.fn == "exp":
            r = SR.gen(G) * da[0]
        elif G.fn == "erfc":
            r = SR.const(-2) / sqrt(PI) * func("exp", -(a[0] * a[0])) * da[0]
        elif G.fn == "cos":
            r = -sin(a[0]) * da[0]
        elif G.fn == "log":
            r = da[0] / a[0]
        else:
            raise Unsupported("derivative of %s" % G.fn)
    memo[g] = r
    return r


def _touched(g, mp, memo):
    k = ("t", g)
    r = memo.get(k)
    if r is None:
        G = GENS[g]
        if g in mp:
            r = True
        elif G.kind == "free":
            r = False
        elif G.kind == "alg":
            r = any(_touched(h, mp, memo) for h in SR(G.rel).gens())
        else:
            r = any(_touched(h, mp, memo) for x in G.args if isinstance(x, SR) for h in x.gens())
        memo[k] = r
    return r


def _subs(e, mp, memo):
    """Group the terms by the part that changes, substitute each part once."""
    groups = {}
    for m, c in e.t.items():
        keep, tch = [], []
        for x in m:
            (tch if _touched(x[0], mp, memo) else keep).append(x)
        d = groups.setdefault(tuple(tch), {})
        d[tuple(keep)] = c
    out = {}
    for tch, poly in groups.items():
        if not tch:
            out = _padd(out, poly)
            continue
        v = memo.get(tch)
        if v is None:
            v = SR({(): 1})
            for g, ex in tch:
                pk = ("p", g, ex)
                pw = memo.get(pk)
                if pw is None:
                    pw = memo[pk] = _gsubs(g, mp, memo) ** ex
                v = v * pw
            memo[tch] = v
        q = _pmul(poly, v.t)
        for m, c in q.items():
            t = out.get(m, 0) + c
            if t:
                out[m] = _c(t)
            else:
                out.pop(m, None)
    return SR(out)


def _gsubs(g, mp, memo):
    if g in memo:
        return memo[g]
    G = GENS[g]
    if g in mp:
        r = SR.lift(mp[g])
    elif G.kind == "free":
        r = SR.gen(G)
    elif G.kind == "alg":
        if G.deg == 1:
            r = _subs(SR(G.rel), mp, memo)
        elif G.fn == "trig":
            r = sin(_subs(G.args[0], mp, memo))
        elif G.fn == "abs":
            r = absval(_subs(G.args[0], mp, memo))
        elif G.fn == "signed":
            raise Unsupported("substitution below a signed root")
        elif G.deg == 2:
            r = sqrt(_subs(SR(G.rel), mp, memo))
        else:
            r = cbrt(_subs(SR(G.rel), mp, memo))
    else:
        args = [_subs(a, mp, memo) if isinstance(a, SR) else a for a in G.args]
        r = func(G.fn, *args)
    memo[g] = r
    return r


# ---- constructors for non-polynomial things -----------------------------------

def _sign_static(p):
    """+1/-1 when the sign is evident from positive generators, 0 zero, None."""
    if not p:
        return 0
    s = None
    for m, c in p.items():
        for g, e in m:
            if not GENS[g].pos and not (e % 2 == 0 and False):
                return None
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
    return s


def _nonneg_static(p):
    """True when evidently >= 0."""
    for m, c in p.items():
        if c < 0:
            return False
        for g, e in m:
            if not GENS[g].nonneg and e % 2:
                return False
    return True


def sqrt(x):
    x = SR.lift(x)
    if x is None:
        raise Unsupported("sqrt of array")
    if not x.t:
        return SR({})
    p = x.t
    # denominators: negative exponents of algebraic divisors -> multiply by squares
    if len(p) == 1:
        (m, c), = p.items()
        out = _sqrt_rat(Fraction(c))
        left = {}
        for g, e in m:
            G = GENS[g]
            if e % 2 == 0 and (G.nonneg):
                out = out * SR({((g, e // 2),): 1})
            elif e % 2 == 0:
                out = out * (absval(SR.gen(G)) ** (e // 2))
            else:
                h = (e - 1) // 2
                if G.nonneg:
                    if h:
                        out = out * SR({((g, h),): 1})
                    left[g] = 1
                else:
                    left[g] = e
        if not left:
            return out
        rel = {tuple(sorted(left.items())): 1}
        return out * _sqrt_poly(rel)
    # pull out content and common monomial of known sign
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = dict(d)
        else:
            keys = set(mins) | set(d)
            mins = {g: min(mins.get(g, 0), d.get(g, 0)) for g in keys}
    out = SR.const(1)
    common = []
    for g, e in mins.items():
        G = GENS[g]
        if e == 0:
            continue
        k = e // 2          # floor: leaves exponent 0 or 1
        if k == 0:
            continue
        if G.nonneg:
            out = out * SR({((g, k),): 1})
        elif k % 2 == 0 or True:
            out = out * (absval(SR.gen(G)) ** k)
        common.append((g, 2 * k))
    common = tuple(sorted(common))
    invc = tuple((g, -e) for g, e in common)
    q = {_mmul(m, invc): c for m, c in p.items()}
    q = _reduce(q)
    if not q:
        return SR({})
    # remove remaining negative exponents of alg gens by clearing with squares
    lead = max(q)
    lc = abs(Fraction(q[lead]))
    # square part of the content
    from math import gcd
    num, den = 0, 1
    for c in q.values():
        c = Fraction(c)
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    content = Fraction(num, den)
    q = {m: _c(Fraction(c) / content) for m, c in q.items()}
    out = out * _sqrt_rat(content)
    return out * _sqrt_poly(q)


def _sqrt_rat(q):
    if q < 0:
        raise Unsupported("square root of a negative constant")
    n = q.numerator * q.denominator
    d = q.denominator
    sq, rest = 1, {}
    k = 2
    while k * k <= n:
        e = 0
        while n % k == 0:
            n //= k
            e += 1
        sq *= k ** (e // 2)
        if e % 2:
            rest[k] = 1
        k += 1
        if k > 100000:
            break
    if n > 1:
        r = int(mpmath.sqrt(n))
        if r * r == n:
            sq *= r
        else:
            rest[n] = 1
    out = SR.const(Fraction(sq, d))
    for pr in sorted(rest):
        g = _sqrtc.get(pr)
        if g is None:
            g = Gen("sqrt(%d)" % pr, "alg", 2, {(): pr}, pos=True, meta="const")
            _sqrtc[pr] = g
        out = out * SR.gen(g)
    return out


def _sqrt_poly(q):
    if len(q) == 1 and () in q:
        return _sqrt_rat(Fraction(q[()]))
    for g in _algs:
        if g.rel == q:
            return SR.gen(g)
    r = _poly_square_root(q)
    if r is not None:
        return absval(r)
    for g in _algs:
        if len(g.rel) == len(q) or True:
            if _iszero(_padd(g.rel, q, -1)):
                return SR.gen(g)
    g = Gen("sqrt(%s)" % SR(q).short(80), "alg", 2, q, nonneg=True, pos=_sign_static(q) == 1)
    _algs.append(g)
    return SR.gen(g)


def _poly_square_root(q):
    """Exact polynomial square root by leading terms, or None."""
    if any(e < 0 for m in q for _, e in m):
        return None
    if any(GENS[g].kind == "alg" for m in q for g, _ in m):
        return None
    gens = sorted({g for m in q for g, _ in m})

    def key(m):
        d = dict(m)
        return tuple(d.get(g, 0) for g in gens)
    rem = dict(q)
    root = {}
    lm = max(rem, key=key)
    lc = Fraction(rem[lm])
    if lc < 0:
        return None
    from math import isqrt
    a, b = isqrt(lc.numerator), isqrt(lc.denominator)
    if a * a != lc.numerator or b * b != lc.denominator:
        return None
    if any(e % 2 for _, e in lm):
        return None
    t = tuple((g, e // 2) for g, e in lm)
    tc = Fraction(a, b)
    root[t] = _c(tc)
    rem = _padd(rem, _pmul(root, root), -1)
    for _ in range(40):
        if not rem:
            return SR(root)
        m = max(rem, key=key)
        d = dict(m)
        for g, e in t:
            d[g] = d.get(g, 0) - e
            if d[g] < 0:
                return None
        nm = tuple(sorted((g, e) for g, e in d.items() if e))
        if key(nm) >= key(t):
            return None
        nc = Fraction(rem[m]) / (2 * tc)
        add = {nm: _c(nc)}
        # rem -= 2*root*add + add^2
        rem = _padd(rem, _pmul({(): 2}, _pmul(root, add)), -1)
        rem = _padd(rem, _pmul(add, add), -1)
        root = _padd(root, add)
        if len(root) > 12:
            return None
    return None


def cbrt(x):
    x = SR.lift(x)
    if x.is_const():
        q = x.cval()
        r = round(float(abs(q)) ** (1 / 3))
        if abs(q) == r ** 3:
            return SR.const(r if q > 0 else -r)
    p = x.t
    if len(p) == 1:
        (m, c), = p.items()
        if all(e % 3 == 0 for _, e in m):
            return cbrt(SR.const(c)) * SR({tuple((g, e // 3) for g, e in m): 1})
    for g in GENS:
        if g.kind == "alg" and g.deg == 3 and g.rel == p:
            return SR.gen(g)
    g = Gen("cbrt(%s)" % x.short(60), "alg", 3, p, pos=_sign_static(p) == 1)
    return SR.gen(g)


def absval(x):
    x = SR.lift(x)
    if x.is_const():
        return SR.const(abs(x.cval()))
    s = _sign_static(x.t)
    if s is not None:
        return x if s >= 0 else -x
    if _nonneg_static(x.t):
        return x
    if _nonneg_static((-x).t):
        return -x
    # |c * pos-monomials * rest|
    if len(x.t) == 1:
        (m, c), = x.t.items()
        out = SR.const(abs(Fraction(c)))
        for g, e in m:
            G = GENS[g]
            b = SR.gen(G) if (G.nonneg) else _abs_atom(SR.gen(G))
            out = out * b ** e
        return out
    # sign known on the current path?
    from . import sym
    sg = sym.known_sign(x)
    if sg == 1 or sg == 0:
        return x
    if sg == -1:
        return -x
    return _abs_atom(x)


def _abs_atom(x):
    lead = max(x.t)
    if x.t[lead] < 0:
        x = -x
    key = tuple(sorted(x.t.items()))
    g = _absd.get(key)
    if g is None:
        g = Gen("|%s|" % x.short(60), "alg", 2, (x * x).t, nonneg=True, fn="abs", args=[x])
        _absd[key] = g
    return SR.gen(g)


def func(fn, *args):
    a = [SR.lift(x) if not isinstance(x, (str, tuple)) else x for x in args]
    if fn == "exp":
        if a[0].is_const() and a[0].cval() == 0:
            return SR.const(1)
    if fn == "erfc" and a[0].is_const() and a[0].cval() == 0:
        return SR.const(1)
    if fn == "log" and a[0].is_const() and a[0].cval() == 1:
        return SR.const(0)
    if fn in CANON:
        return CANON[fn](a)
    if fn == "cos":
        return cos(a[0])
    if fn == "sin":
        return sin(a[0])
    return _fn_atom(fn, a)


CANON = {}
_fnkey = {}


def _fn_atom(fn, a, exact=False):
    key = (fn,) + tuple(tuple(sorted(x.t.items())) if isinstance(x, SR) else x for x in a)
    g = _fnkey.get(key)
    if g is not None:
        return SR.gen(g)
    g = _fn_atom2(fn, a, exact)
    _fnkey[key] = g
    return SR.gen(g)


def _fn_atom2(fn, a, exact):
    lst = _fns.setdefault(fn, [])
    if exact:
        lst = []
    for g in lst:
        if len(g.args) == len(a) and all(
                (x - y).is_zero() if isinstance(x, SR) and isinstance(y, SR) else x == y
                for x, y in zip(g.args, a)):
            return g
    g = Gen("%s(%s)" % (fn, ", ".join(x.short(60) if isinstance(x, SR) else str(x) for x in a)),
            "fn", fn=fn, args=a, pos=(fn in ("exp", "erfc")))
    _fns[fn].append(g)
    return g


def _split_angle(x):
    """Split an angle into (special generator, coefficient 1) + rest."""
    for m, c in x.t.items():
        if len(m) == 1 and m[0][1] == 1 and GENS[m[0][0]].kind == "fn" and GENS[m[0][0]].fn in ("atan2", "acos") \
                and c in (1, -1):
            rest = SR({k: v for k, v in x.t.items() if k != m})
            return GENS[m[0][0]], c, rest
    return None


def _cs_special(G):
    if G.fn == "acos":
        c = G.args[0]
        return c, sqrt(SR.const(1) - c * c)
    y, x = G.args
    h = sqrt(x * x + y * y)
    return x / h, y / h


def _lead_neg(x):
    return x.t[max(x.t)] < 0


def cos(x):
    x = SR.lift(x)
    if not x.t:
        return SR.const(1)
    sp = _split_angle(x)
    if sp:
        G, c, rest = sp
        cg, sg = _cs_special(G)
        sg = sg * c
        if not rest.t:
            return cg
        return cg * cos(rest) - sg * sin(rest)
    if _lead_neg(x):
        x = -x
    return _fn_atom("cos", [x])


def sin(x):
    x = SR.lift(x)
    if not x.t:
        return SR({})
    sp = _split_angle(x)
    if sp:
        G, c, rest = sp
        cg, sg = _cs_special(G)
        sg = sg * c
        if not rest.t:
            return sg
        return sg * cos(rest) + cg * sin(rest)
    if _lead_neg(x):
        return -sin(-x)
    c = cos(x)
    for g in _fns.setdefault("sin", []):
        if (g.args[0] - x).is_zero():
            return SR.gen(g)
    g = Gen("sin(%s)" % x.short(60), "alg", 2, (SR.const(1) - c * c).t, fn="trig", args=[x], meta=c)
    _fns["sin"].append(g)
    return SR.gen(g)


def _recognise():
    out = []
    s3, s2 = sqrt(SR.const(3)), sqrt(SR.const(2))
    out.append(("pi", PI))
    return out


_RECOG = None


def literal(txt):
    """The real number a float literal stands for.

    Short decimals are exact.  A literal with 15+ significant digits that is
    the double nearest to a recognised constant stands for that constant (the
    program cannot write sqrt(3) as a literal)."""
    q = Fraction(txt)
    digits = txt.lower().split("e")[0].replace(".", "").replace("-", "").lstrip("0")
    if len(digits) >= 15:
        import math
        f = float(txt)
        cand = []
        s3, s2 = sqrt(SR.const(3)), sqrt(SR.const(2))
        cand += [(math.sqrt(2), s2), (math.sqrt(3), s3), (0.5 * (math.sqrt(3) + 1), (s3 + 1) / 2),
                 (0.5 * (math.sqrt(3) - 1), (s3 - 1) / 2), (math.pi, PI), (math.sqrt(math.pi), sqrt(PI)),
                 ((math.sqrt(3) + 3) / 6, (s3 + 3) / 6), ((math.sqrt(3) - 3) / 6, (s3 - 3) / 6),
                 (1 / math.sqrt(2), s2 / 2), (1 / math.sqrt(3), s3 / 3), (2 * math.pi, 2 * PI)]
        for v, e in cand:
            if abs(f - v) <= 4e-16 * max(1.0, abs(v)):
                return e
            if abs(f + v) <= 4e-16 * max(1.0, abs(v)):
                return -e
        r = q.limit_denominator(5000)
        if abs(float(r) - f) <= 2.3e-16 * max(1.0, abs(f)) and r != q:
            return SR.const(r)
    return SR.const(q)


_free = {}


def free(name, pos=False, nonneg=False, meta=None):
    """The universally quantified real called `name` (same name, same real)."""
    k = (name, pos, nonneg)
    g = _free.get(k)
    if g is None:
        g = _free[k] = Gen(name, "free", pos=pos, nonneg=nonneg, meta=meta)
    return SR.gen(g)


PI = None
reset()


def alg(name, rel, deg=2):
    """A real with name**deg = rel, of either sign."""
    k = (name, "alg", deg)
    g = _free.get(k)
    if g is None:
        g = _free[k] = Gen(name, "alg", deg, SR.lift(rel).t, fn="signed")
    return SR.gen(g)


def unit_vector(name):
    """An arbitrary unit vector."""
    n0, n1 = free(name + "0", meta="unit"), free(name + "1", meta="unit")
    return [n0, n1, alg(name + "2", 1 - n0 * n0 - n1 * n1)]


def compile_fn(exprs, gens, name="f"):
    """Python function of floats evaluating a list of SRs (memo on gens)."""
    import math
    need = set()
    lines = []
    names = {}
    for i, g in enumerate(gens):
        gid = next(iter(g.gens())) if isinstance(g, SR) else g.gid
        names[gid] = "v%d" % i

    def nm(gid):
        if gid in names:
            return names[gid]
        G = GENS[gid]
        if G.meta == "pi":
            lines.append("n%d = pi" % gid)
        elif G.kind == "alg":
            ex = body(SR(G.rel))
            if G.deg == 1:
                lines.append("n%d = %s" % (gid, ex))
            elif G.fn == "trig":
                lines.append("n%d = sin(%s)" % (gid, body(G.args[0])))
            elif G.deg == 2:
                lines.append("n%d = sqrt(%s)" % (gid, ex))
            else:
                lines.append("n%d = (%s)**(1.0/3)" % (gid, ex))
        elif G.kind == "fn":
            lines.append("n%d = %s(%s)" % (gid, G.fn, ", ".join(body(a) for a in G.args)))
        else:
            raise KeyError(G.name)
        names[gid] = "n%d" % gid
        return names[gid]

    def body(e):
        parts = []
        for m, c in e.t.items():
            f = [repr(float(c))]
            for g, ex in m:
                n = nm(g)
                f.append(n if ex == 1 else "%s**%d" % (n, ex))
            parts.append("*".join(f))
        return " + ".join(parts) or "0.0"
    outs = [body(e) for e in exprs]
    src = "def %s(%s):\n" % (name, ", ".join("v%d" % i for i in range(len(gens))))
    for l in lines:
        src += "  " + l + "\n"
    src += "  return [" + ",\n    ".join(outs) + "]\n"
    ns = dict(pi=math.pi, sqrt=math.sqrt, sin=math.sin, cos=math.cos, exp=math.exp, erfc=math.erfc, log=math.log)
    exec(src, ns)
    return ns[name]
