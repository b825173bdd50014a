"""Loop contract for far-field assembly: an arbitrary iteration of the pair loop
fills exactly its own pair's blocks; after the loop the matrix holds, in every
place on or above the diagonal, the coupling belonging to that place."""
import z3
from . import ring, sym, facade, lazyarr
from .ring import SR, Unsupported
from .sym import SI
from .lazyarr import LArr, BodyEnd, LoopCut, canon, ikey, itrue, eq

DIM = {"U": 3, "W": 3, "E": 5, "4": 3, "5": 3}


def T(m):
    return [list(r) for r in zip(*m)]


class Bodies:
    """Arbitrarily many spheres and dumbbells."""

    def __init__(self):
        u = sym.CTX.user
        u["rep"] = {}
        u["track"] = True
        facade.CREATED.clear()
        self.ns, self.nd = SI.var("ns"), SI.var("nd")
        sym.iassume(self.ns.z() >= 0)
        sym.iassume(self.nd.z() >= 0)

        def arr(name, n, pos=False, tail=(3,)):
            def get(o):
                rep = u["rep"].get((name, ikey(o[0])))
                if rep is not None:
                    return rep[o[1]] if len(o) > 1 else rep
                return ring.free("%s[%s]" % (name, ",".join(map(ikey, o))), pos=pos)
            return LArr((n,) + tail, get, name=name)
        self.ss = arr("ss", self.ns, True, ())
        self.sp = arr("sp", self.ns)
        self.ds = arr("ds", self.nd, True, ())
        self.dp = arr("dp", self.nd)
        self.dx = arr("dx", self.nd)
        self.rot = LArr((self.ns, 2, 3), lambda o: ring.free("rot[%s]" % ",".join(map(ikey, o))), name="rot")

    def posdata(self):
        return (self.ss, self.sp, self.rot, self.ds, self.dp, self.dx)

    def start(self, kind, i):
        ns, nd = self.ns, self.nd
        return {"U": lambda: i * 3, "W": lambda: ns * 3 + i * 3, "E": lambda: ns * 6 + i * 5,
                "4": lambda: ns * 11 + i * 3, "5": lambda: ns * 11 + nd * 3 + i * 3}[kind]()

    def decode(self, x):
        ns, nd = self.ns, self.nd
        for k, hi, base in (("U", ns * 3, 0), ("W", ns * 6, ns * 3), ("E", ns * 11, ns * 6), ("4", ns * 11 + nd * 3, ns * 11)):
            if itrue(SI.lift(x) < hi):
                break
        else:
            k, base = "5", ns * 11 + nd * 3
        i, p = lazyarr.unflatten(canon(SI.lift(x) - base), (DIM[k],))
        return k, i, p

    def bead(self, b):
        if itrue(b < self.ns):
            return "S", b
        if itrue(b < self.ns + self.nd):
            return "4", canon(b - self.ns)
        return "5", canon(b - self.ns - self.nd)


class PairCut:
    """pairfn(same, r(list), s, a1, a2) -> (blocks u<-v, blocks v<-u)."""

    def __init__(self, ck, bodies, pairfn, bb=True, near=None, tag="", havoc=False):
        self.ck, self.B, self.pairfn, self.bb, self.near, self.tag = ck, bodies, pairfn, bb, near, tag
        self.info = None
        self.M = None
        self.weight, self.scale = SR.const(1) / 2, SR.const(1)     # of the two beads' sum and difference; of the result
        self.cut = LoopCut(self.enter, self.after, havoc)

    def matrices(self):
        n = self.B.ns * 11 + self.B.nd * 6
        return [a for a in lazyarr.owned_arrays() if a.ndim == 2 and all(lazyarr._same(d, n) for d in a.shape)]

    def enter(self, cut, binders, elt):
        pair = []
        for b, e in cut.stack:
            pair += list(e) if isinstance(e, (tuple, list)) else [e]
        if len(pair) < 2:
            return
        if len(pair) > 2 or not all(isinstance(x, SI) for x in pair):
            raise Unsupported("pair loop shape")
        u, v = pair
        if not sym.ientails(u.z() <= v.z()):
            u, v = v, u
            if not sym.ientails(u.z() <= v.z()):
                raise Unsupported("pair loop is not over ordered pairs")
        B = self.B
        nb = B.ns + B.nd * 2
        # every pair is visited
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(B.ns.z() >= 0, B.nd.z() >= 0, u.z() >= 0, u.z() <= v.z(), v.z() < nb.z())
        s.add(z3.Not(z3.And([z3.And(SI.var(n).z() >= SI.lift(lo).z(), SI.var(n).z() < SI.lift(hi).z()) for bs, _ in cut.stack for n, lo, hi in bs])))
        self.visited = s.check() == z3.unsat
        sym.iassume(z3.And(u.z() >= 0, v.z() < nb.z()))
        (ku, iu), (kv, iv) = B.bead(u), B.bead(v)
        same = False
        if ku == kv:
            same = eq(u, v)
        rep = sym.CTX.user["rep"]
        half = SR.const(1) / 2
        if same:
            a = ring.free("a", pos=True)
            rep["ss" if ku == "S" else "ds", ikey(iu)] = a
            r, sd, a1, a2 = [SR.const(0)] * 3, SR.const(0), a, a
            samed = True
        else:
            samed = ku != "S" and kv != "S" and ku != kv and eq(iu, iv)
            sd = ring.free("s", pos=True)
            n = ring.unit_vector("n")
            p = [ring.free("p%d" % k) for k in range(3)]
            if samed:
                a1 = a2 = ring.free("h", pos=True)
            else:
                h, d = ring.free("h", pos=True), ring.free("d")
                a1, a2 = h + d, h - d
                sym.assume(a1 > 0)
                sym.assume(a2 > 0)
            sym.assume(sd > ring.literal("1e-8"))
            r = [sd * x for x in n]
            X = {"u": [p[k] + r[k] for k in range(3)], "v": p}
            if samed:
                rep["ds", ikey(iu)] = a1
                rep["dx", ikey(iu)] = [X["v"][k] - X["u"][k] for k in range(3)]
                rep["dp", ikey(iu)] = [(X["v"][k] + X["u"][k]) * half for k in range(3)]
            else:
                for w, kind, i, a in (("u", ku, iu, a1), ("v", kv, iv, a2)):
                    if kind == "S":
                        rep["ss", ikey(i)] = a
                        rep["sp", ikey(i)] = X[w]
                    else:
                        e = [ring.free("e%s%d" % (w, k)) for k in range(3)]
                        sg = half if kind == "4" else -half
                        rep["ds", ikey(i)] = a
                        rep["dx", ikey(i)] = e
                        rep["dp", ikey(i)] = [X[w][k] + sg * e[k] for k in range(3)]
            if self.near is not None:
                r, sd = self.near(r, sd, a1, a2)
        self.info = (ku, iu, kv, iv, same, samed, r, sd, a1, a2)
        ms = self.matrices()
        if len(ms) != 1:
            raise Unsupported("%d candidate matrices" % len(ms))
        M = self.M = ms[0]
        old = LArr(M.shape, M._get)
        old.log = list(M.log)
        M.log = []
        M._get = lambda o: self.own(o, old)
        self.initial = old

    def required(self):
        ku, iu, kv, iv, same, samed, r, s, a1, a2 = self.info
        b, bt = self.pairfn(same, r, s, a1, a2)
        S = self.B.start
        if ku == "S" and kv == "S":
            out = [("U", iu, "U", iv, b["A"]), ("U", iu, "W", iv, b["B"]), ("U", iu, "E", iv, b["G"]), ("W", iu, "W", iv, b["C"]),
                   ("W", iu, "E", iv, b["H"]), ("E", iu, "E", iv, b["M"])]
            if not same:
                out += [("U", iv, "W", iu, bt["B"]), ("U", iv, "E", iu, bt["G"]), ("W", iv, "E", iu, bt["H"])]
        elif ku == "S":
            out = [("U", iu, kv, iv, b["A"]), ("W", iu, kv, iv, T(bt["B"])), ("E", iu, kv, iv, T(bt["G"]))]
        else:
            if not (self.bb or same):
                # no interaction: the place keeps its initial zero
                out = [(ku, iu, kv, iv, [[SR.const(0)] * 3] * 3)]
            else:
                out = [(ku, iu, kv, iv, b["A"])]
        return [(kr, S(kr, i), kc, S(kc, j), m) for kr, i, kc, j, m in out]

    def places(self):
        ku, iu, kv, iv = self.info[:4]
        S = self.B.start
        if ku == "S" and kv == "S":
            ks = [("U", iu, "U", iv), ("U", iu, "W", iv), ("U", iu, "E", iv), ("W", iu, "W", iv), ("W", iu, "E", iv), ("E", iu, "E", iv),
                  ("U", iv, "W", iu), ("U", iv, "E", iu), ("W", iv, "E", iu)]
        elif ku == "S":
            ks = [(k, iu, kv, iv) for k in "UWE"]
        else:
            ks = [(ku, iu, kv, iv)]
        return [(S(a, i), DIM[a], S(b, j), DIM[b]) for a, i, b, j in ks]

    def own(self, o, old):
        f = z3.Or([z3.And(_rng(o[0], r0, h), _rng(o[1], c0, w)) for r0, h, c0, w in self.places()])
        if not sym.ientails(f):
            raise Unsupported("an iteration reads another pair's place")
        return old.get(o)

    def body_obligations(self):
        """After one arbitrary iteration: [(name, difference)] and frame results."""
        ku, iu, kv, iv, same, samed = self.info[:6]
        tag = "%s%s%s" % (ku, kv, "=" if same else ("~" if samed else ""))
        out = []
        for kr, r0, kc, c0, m in self.required():
            for p, row in enumerate(m):
                for q, val in enumerate(row):
                    if same and kr == kc and p > q:
                        continue
                    got = self.M.get((canon(r0 + p), canon(c0 + q)))
                    out.append(("%sown block %s:%s%s[%d,%d]" % (self.tag, tag, kr, kc, p, q), SR.lift(got) - val))
        frame = []
        for starts, lens, _ in self.M.log:
            f = z3.Or([z3.And(_rng(starts[0], r0, h), _rng(canon(SI.lift(starts[0]) + (lens[0] - 1)), r0, h),
                              _rng(starts[1], c0, w), _rng(canon(SI.lift(starts[1]) + (lens[1] - 1)), c0, w)) for r0, h, c0, w in self.places()]
                      + [SI.lift(starts[0]).z() > (SI.lift(starts[1]) + (lens[1] - 1)).z() if isinstance(SI.lift(starts[1]) + (lens[1] - 1), SI) else z3.BoolVal(False)])
            frame.append(("%sframe %s" % (self.tag, tag), bool(sym.ientails(f))))
        for a in lazyarr.owned_arrays():
            if a is not self.M and a.log and a.log is not self.M.log:
                raise Unsupported("another array is written in the loop")
        return out, frame

    def after(self, cut, binders, elt):
        if cut.stack:          # inner loop inside a generic outer iteration
            self.info = None
            return
        ms = self.matrices()
        if len(ms) != 1:
            raise Unsupported("%d candidate matrices" % len(ms))
        M = ms[0]
        old = LArr(M.shape, M._get)
        old.log = list(M.log)
        M.log = []
        M._get = lambda o: self.content(o, old)

    def content(self, o, old):
        i, j = o
        if not sym.ientails(SI.lift(SI.lift(i) - SI.lift(j)).z() <= 0):
            raise Unsupported("content below the diagonal")
        (kr, a, p), (kc, b, q) = self.B.decode(i), self.B.decode(j)
        if kr in "45" and kc in "45" and not self.bb and (kr != kc or not eq(a, b)):
            return old.get(o)
        return ring.free("C[%s%s;%s;%s;%d,%d]" % (kr, kc, ikey(a), ikey(b), p, q))

    def full(self, x, y, old0=SR.const(0)):
        """Symmetric bead matrix at (kind, index, comp) pairs."""
        B = self.B
        i, j = canon(B.start(x[0], x[1]) + x[2]), canon(B.start(y[0], y[1]) + y[2])
        if not itrue(SI.lift(i) <= j):
            x, y = y, x
        if x[0] in "45" and y[0] in "45" and not self.bb and (x[0] != y[0] or not eq(x[1], y[1])):
            return old0
        return ring.free("C[%s%s;%s;%s;%d,%d]" % (x[0], y[0], ikey(x[1]), ikey(y[1]), x[2], y[2]))

    def final_obligations(self, res):
        B = self.B
        kinds = ["U", "W", "E", "4", "5"]

        def choose(lab):
            for k in kinds[:-1]:
                if sym.CTX.decide("%s kind %s" % (lab, k)):
                    return k
            return kinds[-1]
        kr, kc = choose("row"), choose("column")
        i, j = SI.var("i"), SI.var("j")
        for k, x in ((kr, i), (kc, j)):
            sym.iassume(z3.And(x.z() >= 0, x.z() < (B.ns if k in "UWE" else B.nd).z()))
        if not sym.ifeasible():
            raise sym.Infeasible()
        if (kr in "UWE") == (kc in "UWE"):
            if not itrue(i < j):
                eq(i, j)
        h = self.weight
        ex = {"4": [("4", h), ("5", h)], "5": [("4", -h), ("5", h)]}
        out = []
        n = B.ns * 11 + B.nd * 6
        if not (len(res.shape) == 2 and all(lazyarr._same(d, n) for d in res.shape)):
            raise Unsupported("result shape %s" % (res.shape,))
        for p in range(DIM[kr]):
            for q in range(DIM[kc]):
                e = SR.const(0)
                for k1, c1 in ex.get(kr, [(kr, SR.const(1))]):
                    for k2, c2 in ex.get(kc, [(kc, SR.const(1))]):
                        e = e + c1 * c2 * self.full((k1, canon(i), p), (k2, canon(j), q))
                g = res.get((canon(B.start(kr, i) + p), canon(B.start(kc, j) + q)))
                out.append(("%sfinal placement %s%s[%d,%d]" % (self.tag, kr, kc, p, q), SR.lift(g) - e * self.scale))
        return out


def _rng(x, lo, n):
    d = SI.lift(SI.lift(x) - SI.lift(lo))
    return z3.And(d.z() >= 0, d.z() < n)


def counts(ctx, limit=30):
    """Small numbers of spheres and dumbbells satisfying the integer facts of a path."""
    o = z3.Optimize()
    o.set("timeout", 5000)
    o.add(*ctx.ifacts)
    ns, nd = z3.Int("ns"), z3.Int("nd")
    o.minimize(ns + nd)
    if o.check() != z3.sat:
        return None
    m = o.model()
    ns, nd = m.eval(ns, model_completion=True).as_long(), m.eval(nd, model_completion=True).as_long()
    return (ns, nd) if 0 < ns + nd <= limit else None


def prove(ck, make, call, pairfn, bb=True, near=None, scope="unbounded", tag="", limit=400, deadline=None, conc=None, havoc=False, rule=None):
    """call(bodies) runs the real function on arbitrary bodies; rule(bodies) makes
    the loop rule (PairCut unless given)."""
    def harness():
        make()
        B = Bodies()
        pc = rule(B) if rule is not None else PairCut(ck, B, pairfn, bb, near, tag, havoc)
        facade.LOOP_HOOK[0] = pc.cut
        try:
            res = call(B)
        except BodyEnd:
            if pc.info is None:
                return "skip", [], []
            return ("body",) + pc.body_obligations() + (pc.visited,)
        finally:
            facade.LOOP_HOOK[0] = None
        return "final", pc.final_obligations(res), []
    seen = {"body": 0, "final": 0, "skip": 0}
    for ctx, (kind, res) in sym.explore(harness, limit=limit, deadline=deadline):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            st, env = sym.sample_path(ctx, [], ck.rng, draw=getattr(ck, "draw", None))
            if st == "unsat":
                ck.dead += 1
                continue
            n = counts(ctx)
            if conc is not None and n is not None:
                conc(n, ctx, "no exception")
            raise Unsupported("exception on a path: %r" % (res,))
        seen[res[0]] += 1
        for name, d in res[1]:
            ck.zero(name, d, ctx, (lambda env, nm: conc(counts(ctx), ctx, nm)) if conc is not None and not ck.viol else None, scope)
        for name, ok in res[2]:
            ck.record(name, "proved" if ok else "undecided", "z3", 0.0, scope)
        if res[0] == "body":
            ck.record("%severy pair visited" % tag, "proved" if res[3] else "undecided", "z3", 0.0, scope)
    if not seen["body"] or not seen["final"]:
        raise Unsupported("vacuous: %s" % seen)
    return seen
