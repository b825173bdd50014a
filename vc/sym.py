"""Paths, comparisons and symbolic integers.

A harness is run once per path.  Every comparison that the facts on the path do
not decide forks it: the run takes one branch and the other is queued, so the
set of finished paths covers every input.
"""
import time
from fractions import Fraction
import z3
from . import ring
from .ring import SR, GENS, Unsupported, _sign_static

CTX = None


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    """The current path contradicts its own facts."""


class Ctx:
    def __init__(self, prefix, deadline=None):
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # (label, taken)
        self.signs = {}          # canonical poly -> (SR, set of signs)
        self.alt = []
        self.ifacts = []         # z3 int facts
        self.solver = z3.Solver()
        self.solver.set("timeout", 5000)
        self.deadline = deadline
        self.log = []
        self.icache = {}
        self.subst = {}          # gid -> SR from equalities
        self.user = {}
        self.done = False
        self.ver = 0

    def push(self, *facts):
        """Facts that hold for now (the range of a bound index)."""
        self.solver.push()
        self.ver += 1
        n = len(self.ifacts)
        for f in facts:
            self.solver.add(f)
            self.ifacts.append(f)
        return n, len(facts)

    def pop(self, mark):
        n, k = mark
        later = self.ifacts[n + k:]
        del self.ifacts[n:]
        self.solver.pop()
        self.ver += 1
        for f in later:
            self.solver.add(f)
            self.ifacts.append(f)

    def decide(self, label):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time limit")
        if len(self.trace) > 2000:
            raise PathLimit("more than 2000 case splits on one path")
        if self.done:
            raise Unsupported("case split after the run: %s" % label)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.alt.append(self.prefix[:0] + [t for _, t in self.trace] + [False])
        self.pos += 1
        self.trace.append((label, v))
        return v


def explore(fn, limit=4000, deadline=None):
    """Run fn on every path.  Yields (ctx, result or exception)."""
    global CTX
    work = [[]]
    n = 0
    while work:
        pre = work.pop()
        n += 1
        if n > limit:
            raise PathLimit("more than %d paths" % limit)
        if deadline and time.time() > deadline:
            raise PathLimit("time limit")
        CTX = Ctx(pre, deadline)
        ctx = CTX
        try:
            res = ("ok", fn())
        except Infeasible:
            res = ("dead", None)
        except (Unsupported, PathLimit):
            raise
        except ZeroDivisionError as e:
            res = ("raise", e)
        except (SystemExit, Exception) as e:
            res = ("raise", e)
        finally:
            CTX = None
        ctx.done = True
        work.extend(ctx.alt)
        CTX = ctx            # obligations may consult the facts
        yield ctx, res
        CTX = None


# ---- real comparisons ---------------------------------------------------------

OPS = {"==": {0}, "!=": {-1, 1}, "<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def _canon(d):
    """Scale to leading coefficient 1; return (key, poly, flip)."""
    lead = max(d.t)
    lc = Fraction(d.t[lead])
    t = {m: ring._c(Fraction(c) / abs(lc)) for m, c in d.t.items()}
    flip = 1
    if lc < 0:
        t = {m: -c for m, c in t.items()}
        flip = -1
    # drop a common factor of positive generators
    mins = None
    for m in t:
        dd = dict(m)
        if mins is None:
            mins = dd
        else:
            mins = {g: min(mins.get(g, 0), dd.get(g, 0)) for g in set(mins) | set(dd)}
    com = tuple(sorted((g, -e) for g, e in mins.items() if e and GENS[g].pos))
    if com:
        t = {ring._mmul(m, com): c for m, c in t.items()}
    return tuple(sorted(t.items())), SR(t), flip


class SBool:
    """Truth of  d op 0, or of an integer formula; bool() forks."""
    __slots__ = ("d", "op", "z", "val")
    __array_ufunc__ = None

    def __init__(self, d=None, op=None, z=None):
        self.d, self.op, self.z, self.val = d, op, z, None

    def __bool__(self):
        if self.val is None:
            if CTX is None:
                raise Unsupported("truth of a symbolic condition outside a path")
            self.val = _decide_int(self.z) if self.z is not None else _decide_real(self.d, self.op)
        return self.val

    def _as_SR(self):
        return SR.const(1 if self else 0)

    def __invert__(self):
        return not bool(self)

    def __and__(self, o): return bool(self) and bool(o)
    def __rand__(self, o): return bool(o) and bool(self)
    def __or__(self, o): return bool(self) or bool(o)
    def __ror__(self, o): return bool(o) or bool(self)
    def __mul__(self, o): return (1 if self else 0) * o
    def __rmul__(self, o): return (1 if self else 0) * o
    def __add__(self, o): return (1 if self else 0) + o
    def __radd__(self, o): return (1 if self else 0) + o
    def __rsub__(self, o): return o - (1 if self else 0)
    def __sub__(self, o): return (1 if self else 0) - o
    def __neg__(self): return -(1 if self else 0)
    def __int__(self): return 1 if self else 0
    def __index__(self): return 1 if self else 0
    def __eq__(self, o): return bool(self) == bool(o)
    def __ne__(self, o): return bool(self) != bool(o)
    def __hash__(self): return id(self)
    def any(self): return bool(self)
    def all(self): return bool(self)


def real_cmp(d, op):
    if not d.t:
        return 0 in OPS[op]
    if d.is_const():
        c = d.cval()
        s = (c > 0) - (c < 0)
        return s in OPS[op]
    s = _sign_static(d.t)
    if s is not None:
        return s in OPS[op]
    if all(GENS[g].meta in ("const", "pi") for g in d.gens()):
        v = d.eval({})
        if abs(v) > 1e-25:
            return (1 if v > 0 else -1) in OPS[op]
        return (0 in OPS[op])
    if d.is_zero():
        return 0 in OPS[op]
    if ring._nonneg_static(d.t) and op in (">=", "<"):
        return op == ">="
    if ring._nonneg_static((-d).t) and op in ("<=", ">"):
        return op == "<="
    return SBool(d, op)


def _allowed(d):
    key, p, flip = _canon(d)
    st = CTX.signs.get(key)
    if st is None:
        al = {-1, 0, 1}
        if ring._nonneg_static(p.t):
            al = {0, 1}
        # facts recorded with a constant offset: p = q + c for a known q
        for k2, (q, s2) in CTX.signs.items():
            dd = p - q
            if dd.is_const():
                c = dd.cval()
                if c > 0 and -1 not in s2:
                    al &= {1}
                if c < 0 and 1 not in s2:
                    al &= {-1}
                continue
            dd = p + q
            if dd.is_const():
                c = dd.cval()
                if c > 0 and 1 not in s2:
                    al &= {1}
                if c < 0 and -1 not in s2:
                    al &= {-1}
    else:
        al = set(st[1])
    return key, p, flip, al


def known_sign(d):
    if CTX is None or not d.t:
        return None if d.t else 0
    key, p, flip, al = _allowed(d)
    if len(al) == 1:
        return next(iter(al)) * flip
    if al == {0, 1} and flip == 1:
        return 1
    if al == {0, 1} and flip == -1:
        return -1
    return None


def _decide_real(d, op):
    if CTX.subst:
        d = d.subs(CTX.subst)
        r = real_cmp(d, op)
        if not isinstance(r, SBool):
            return r
    key, p, flip, al = _allowed(d)
    want = {x * flip for x in OPS[op]}
    if al <= want:
        return True
    if not (al & want):
        return False
    v = CTX.decide("%s %s 0" % (d.short(100), op))
    new = (al & want) if v else (al - want)
    CTX.signs[key] = (p, new)
    if new == {0}:
        _learn_eq(p)
    return v


def _learn_eq(p):
    """p = 0 and p linear in a free generator: record it as a substitution."""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and GENS[m[0][0]].kind == "free" and GENS[m[0][0]].meta != "pi":
            g = m[0][0]
            if sum(1 for m2 in p.t if any(x[0] == g for x in m2)) == 1:
                rest = SR({k: v for k, v in p.t.items() if k != m})
                if g in rest.free_gens() or _below_signed(g):
                    continue
                CTX.subst[g] = -rest / SR.const(c)
                return


def _below_signed(g):
    """A root whose sign is open depends on g: no substitution (the equality is
    still known to the solver and to sampling)."""
    for G in GENS:
        if G.kind == "alg" and G.fn == "signed" and g in SR(G.rel).free_gens():
            return True
    return False


def assume(cond):
    """Restrict the path to inputs satisfying cond."""
    if isinstance(cond, SBool):
        if cond.z is not None:
            CTX.solver.add(cond.z)
            CTX.ifacts.append(cond.z)
            if CTX.solver.check() == z3.unsat:
                raise Infeasible()
            return
        d, op = cond.d, cond.op
        key, p, flip, al = _allowed(d)
        want = {x * flip for x in OPS[op]}
        new = al & want
        if not new:
            raise Infeasible()
        CTX.signs[key] = (p, new)
        CTX.trace.append(("assume %s %s 0" % (d.short(80), op), None)) if False else None
        if new == {0}:
            _learn_eq(p)
        return
    if not cond:
        raise Infeasible()


def arr_cmp(a, b, op):
    import numpy as np
    if not isinstance(b, np.ndarray):
        raise Unsupported("comparison with %r" % (type(b),))
    out = np.empty(b.shape, dtype=bool)
    f = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y,
         "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]
    for k in np.ndindex(*b.shape):
        out[k] = bool(f(a, b[k]))
    return out


def floor(x):
    """floor(x): a fresh integer-valued real n with n <= x < n+1."""
    x = SR.lift(x)
    if x.is_const():
        c = x.cval()
        return SR.const(c.numerator // c.denominator)
    if all(GENS[g].meta in ("const", "pi") for g in x.gens()):
        import mpmath
        return SR.const(int(mpmath.floor(x.eval({}))))
    if len(x.t) == 1:
        # floor(floor(a) / n) = floor(a / n) for a positive whole number n
        (m, c), = x.t.items()
        c = Fraction(c)
        if len(m) == 1 and m[0][1] == 1 and c > 0 and c.numerator == 1 and GENS[m[0][0]].kind == "fn" and GENS[m[0][0]].fn == "floor":
            return floor(GENS[m[0][0]].args[0] * SR.const(c))
    return ring.func("floor", x)


def mod(x, y):
    x, y = SR.lift(x), SR.lift(y)
    if y is None:
        raise Unsupported("mod")
    q = floor(x / y)
    return x - y * q


def rounded(x, n=None):
    raise Unsupported("round of a symbolic real")


# ---- witnesses ------------------------------------------------------------------

def to_z3(e, env):
    tot = z3.RealVal(0)
    for m, c in e.t.items():
        v = z3.RealVal("%d/%d" % (Fraction(c).numerator, Fraction(c).denominator))
        for g, ex in m:
            gv = _gz3(g, env)
            if ex > 0:
                for _ in range(ex):
                    v = v * gv
            else:
                iv = _ginv(g, env)
                for _ in range(-ex):
                    v = v * iv
        tot = tot + v
    return tot


def _ginv(g, env):
    k = ("inv", g)
    if k not in env["v"]:
        x = z3.Real("i%d" % g)
        env["v"][k] = x
        env["c"].append(x * _gz3(g, env) == 1)
    return env["v"][k]


def _gz3(g, env):
    if g in env["v"]:
        return env["v"][g]
    G = GENS[g]
    if G.kind == "fn" and G.fn == "floor":
        n = z3.Int("n%d" % g)
        x = z3.ToReal(n)
        env["v"][g] = x
        a = to_z3(G.args[0], env)
        env["c"] += [x <= a, a < x + 1]
        return x
    x = z3.Real("g%d" % g)
    env["v"][g] = x
    if G.meta == "pi":
        env["c"] += [x > z3.RealVal("3.14159265"), x < z3.RealVal("3.14159266")]
        return x
    if G.pos:
        env["c"].append(x > 0)
    elif G.nonneg:
        env["c"].append(x >= 0)
    if G.kind == "alg":
        r = to_z3(SR(G.rel), env)
        p = x
        for _ in range(G.deg - 1):
            p = p * x
        env["c"].append(p == r)
    return x


def entails(ctx, claim, timeout=20000):
    """Do the facts of the path entail claim(lambda SR: z3 real)?  True / False / None."""
    env = {"v": {}, "c": []}
    f = claim(lambda e: to_z3(SR.lift(e), env))
    cons = _path_cons(ctx, env)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*cons)
    s.add(*env["c"])
    s.add(z3.Not(f))
    t = time.time()
    r = s.check()
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t
    return True if r == z3.unsat else False if r == z3.sat else None


def _path_cons(ctx, env):
    cons = []
    for key, (p, al) in ctx.signs.items():
        if al == {-1, 0, 1}:
            continue
        e = to_z3(p, env)
        opts = {frozenset({1}): e > 0, frozenset({-1}): e < 0, frozenset({0}): e == 0,
                frozenset({0, 1}): e >= 0, frozenset({-1, 0}): e <= 0, frozenset({-1, 1}): e != 0,
                frozenset(): z3.BoolVal(False)}
        cons.append(opts[frozenset(al)])
    return cons


def path_model(ctx, extra=(), timeout=4000):
    """('sat', {gid: Fraction/float}) / ('unsat', None) / ('unknown', None)."""
    env = {"v": {}, "c": []}
    cons = _path_cons(ctx, env)
    for e in extra:
        cons.append(e(env))
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", timeout)
    s.add(*cons)
    s.add(*env["c"])
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r != z3.sat:
        return "unknown", None
    m = s.model()
    out = {}
    for g, v in env["v"].items():
        if isinstance(g, tuple) or GENS[g].kind != "free" or GENS[g].meta == "pi":
            continue
        val = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(val):
            val = val.approx(20)
        out[g] = Fraction(val.numerator_as_long(), val.denominator_as_long())
    return "sat", out


def facts_hold(ctx, env):
    memo = {}
    for key, (p, al) in ctx.signs.items():
        if al == {-1, 0, 1}:
            continue
        try:
            v = p.eval(env, memo)
        except Exception:
            return False
        if type(v).__name__ == "mpc":
            return False
        s = 0 if abs(v) < 1e-20 else (1 if v > 0 else -1)
        if s not in al:
            return False
    return True


def sample_path(ctx, gens, rng, tries=200, draw=None):
    """Find numeric values of the free generators satisfying the path facts."""
    base = None

    def rnd(g):
        G = GENS[g]
        if draw is not None:
            v = draw(G, rng)
            if v is not None:
                return Fraction(v).limit_denominator(10 ** 9)
        if G.meta == "unit":
            return Fraction(rng.uniform(.1, .9) if G.nonneg else rng.uniform(-.7, .7)).limit_denominator(10 ** 6)
        return Fraction(rng.uniform(0.5, 3.0) if G.nonneg else rng.uniform(-3, 3)).limit_denominator(10 ** 6)

    def complete(env):
        for g, e in ctx.subst.items():
            for h in e.free_gens():
                if h not in env and GENS[h].meta != "pi":
                    env[h] = rnd(h)
        for g in reversed(list(ctx.subst)):
            try:
                env[g] = ctx.subst[g].eval(env)
            except Exception:
                pass
        return env
    allg = set(gens)
    for key, (p, al) in ctx.signs.items():
        allg |= p.free_gens()
    allg = [g for g in allg if GENS[g].meta != "pi"]
    if ctx.user.get("unsat") == len(ctx.signs):
        return "unsat", None
    for _ in range(tries):
        env = complete({g: rnd(g) for g in allg if g not in ctx.subst})
        if facts_hold(ctx, env):
            return "sat", env
    r, m = path_model(ctx)
    if r == "unsat":
        ctx.user["unsat"] = len(ctx.signs)
    if r != "sat":
        return r, None
    env = {g: rnd(g) for g in allg}
    env.update(m)
    if facts_hold(ctx, complete(env)):
        return "sat", env
    return "unknown", None


# ---- symbolic integers -------------------------------------------------------------

_ivars = {}
_zc = {}
_ZOP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
        "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


PRODUCTS = [False]  # products of two integer variables as variables of their own


class SI:
    """A linear form over integer variables: const + sum coef*var."""
    __slots__ = ("c", "v")
    __array_ufunc__ = None

    def __init__(self, c=0, v=None):
        self.c = c
        self.v = v or {}

    @staticmethod
    def var(name):
        return SI(0, {name: 1})

    @staticmethod
    def lift(x):
        if isinstance(x, SI):
            return x
        if isinstance(x, bool):
            return SI(int(x))
        if isinstance(x, int) or type(x).__name__.startswith("int"):
            return SI(int(x))
        return None

    def norm(self):
        if not self.v:
            return self.c
        return self

    def z(self):
        key = (self.c, tuple(sorted(self.v.items())))
        e = _zc.get(key)
        if e is None:
            e = z3.IntVal(self.c)
            for n, k in key[1]:
                e = e + k * z3.Int(n)
            if len(_zc) > 20000:
                _zc.clear()
            _zc[key] = e
        return e

    def __add__(self, o):
        q = SI.lift(o)
        if q is None:
            return self._real(o, lambda a, b: a + b)
        v = dict(self.v)
        for n, k in q.v.items():
            v[n] = v.get(n, 0) + k
            if not v[n]:
                del v[n]
        return SI(self.c + q.c, v).norm()
    __radd__ = __add__

    def __neg__(self):
        return SI(-self.c, {n: -k for n, k in self.v.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = SI.lift(o)
        if q is None:
            return self._real(o, lambda a, b: a - b)
        return self + (-q)

    def __rsub__(self, o):
        q = SI.lift(o)
        if q is None:
            return self._real(o, lambda a, b: b - a)
        return (-self) + q

    def __mul__(self, o):
        q = SI.lift(o)
        if q is None:
            return self._real(o, lambda a, b: a * b)
        if q.v and self.v:
            if PRODUCTS[0] and not any("\u00b7" in n for n in (*self.v, *q.v)):
                r = SI(self.c * q.c) + self.c * SI(0, q.v) + q.c * SI(0, self.v)
                for m, k in self.v.items():
                    for n, l in q.v.items():
                        r = r + SI(0, {"\u00b7".join(sorted((m, n))): k * l})
                return r
            raise Unsupported("product of symbolic integers")
        if not self.v:
            self, q = q, self
        if q.c == 0:
            return 0
        return SI(self.c * q.c, {n: k * q.c for n, k in self.v.items()}).norm()
    __rmul__ = __mul__

    def _real(self, o, f):
        if o is None or isinstance(o, (list, tuple, str)):
            return NotImplemented
        if hasattr(o, "shape") and not isinstance(o, SR):
            return NotImplemented
        q = SR.lift(o)
        if q is None:
            return NotImplemented
        return f(self._as_SR(), q)

    def _as_SR(self):
        out = SR.const(self.c)
        for n, k in self.v.items():
            g = _ivars.get(n)
            if g is None or g.gid >= len(GENS) or GENS[g.gid] is not g:
                g = ring.Gen(n, "free", meta=("int", n))
                _ivars[n] = g
            out = out + SR.gen(g) * k
        return out

    def __truediv__(self, o):
        return self._as_SR() / o

    def __rtruediv__(self, o):
        return SR.lift(o) / self._as_SR()

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def _by(self, o):
        """Quotient and remainder by a variable; one name for quotients that are equal for every value."""
        (e,) = o.v
        k = self.v.get(e, 0)
        u = self - k * o
        if isinstance(u, SI) and u.v[min(u.v)] < 0:
            # floor(-u/e) = -(floor((u - 1)/e) + 1)
            w = -u - 1
            q = -(SI.var("quo(%r;%r)" % (w, o)) + 1) + k
        else:
            q = SI.var("quo(%r;%r)" % (u, o)) + k
        r = self - q * o
        iassume(z3.And(r.z() >= 0, r.z() < o.z()))
        return q, r

    def _divmod(self, o):
        if isinstance(o, SI) and o.v:
            # remainder by a symbolic modulus: only its range is used
            if not ientails(o.z() >= 1):
                raise Unsupported("division by a symbolic integer that may not be positive")
            if PRODUCTS[0] and not o.c and list(o.v.values()) == [1]:
                return self._by(o)
            n = "rem(%r;%r)" % (self, o)
            r = SI.var(n)
            if ("rem", n) not in CTX.icache:
                CTX.icache["rem", n] = True
                iassume(z3.And(r.z() >= 0, r.z() < o.z()))
            return SI.var("quo(%r;%r)" % (self, o)), r
        if not isinstance(o, int) or o <= 0:
            raise Unsupported("division of a symbolic integer")
        if all(k % o == 0 for k in self.v.values()):
            return SI(self.c // o, {n: k // o for n, k in self.v.items()}).norm(), self.c % o
        key = ("div", o, self.c, tuple(sorted(self.v.items())))
        q = CTX.icache.get(key)
        if q is None:
            q = SI.var("q%d!%d" % (len(CTX.icache), o))
            CTX.icache[key] = q
            f = z3.And(self.z() - o * q.z() >= 0, self.z() - o * q.z() < o)
            CTX.solver.add(f)
            CTX.ifacts.append(f)
        return q, self - q * o

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, op):
        q = SI.lift(o)
        if q is None:
            if isinstance(o, SR):
                return real_cmp(self._as_SR() - o, op)
            if op == "==":
                return False
            if op == "!=":
                return True
            raise Unsupported("comparison")
        a, b = self.z(), q.z()
        d = self - q
        if isinstance(d, int):
            return ((d > 0) - (d < 0)) in OPS[op]
        return SBool(z=_ZOP[op](a, b))

    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash((self.c, tuple(sorted(self.v.items()))))

    def __int__(self):
        raise Unsupported("int() of a symbolic integer")

    def __index__(self):
        raise Unsupported("symbolic integer used as a concrete index")

    def __repr__(self):
        return " + ".join(([str(self.c)] if self.c or not self.v else []) +
                          [("%d*%s" % (k, n) if k != 1 else n) for n, k in self.v.items()])

    def __format__(self, spec):
        return repr(self)


STATS = {"z3_calls": 0, "z3_time": 0.0}


def _check(*extra):
    t = time.time()
    r = CTX.solver.check(*extra)
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t
    return r


def ientails(f):
    """Do the integer facts of the path entail f?  True / False / None."""
    key = ("ent", f.get_id(), len(CTX.ifacts), CTX.ver)
    if key in CTX.icache:
        return CTX.icache[key][0]
    r = _check(z3.Not(f))
    out = True if r == z3.unsat else (False if r == z3.sat else None)
    CTX.icache[key] = (out, f)      # keeping f alive keeps its id unique
    return out


def iassume(f):
    if isinstance(f, SBool):
        f = f.z
    if f is True:
        return
    if f is False:
        raise Infeasible()
    CTX.solver.add(f)
    CTX.ifacts.append(f)


def ifeasible():
    return _check() != z3.unsat


def _decide_int(f):
    e = ientails(f)
    if e:
        return True
    n = ientails(z3.Not(f))
    if n:
        return False
    if e is None or n is None:
        raise Unsupported("z3 could not decide %s" % f)
    from . import lazyarr
    if any(lazyarr.mentions(f, b[0]) for bs in lazyarr._binders for b in bs):
        raise Unsupported("case split inside a comprehension")
    v = CTX.decide(f)
    g = f if v else z3.Not(f)
    CTX.solver.add(g)
    CTX.ifacts.append(g)
    return v
