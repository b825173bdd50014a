"""C24: elapsed times and time-left estimates are reported correctly."""
import re
import numpy as np
import z3
from vc import ring, sym, common, facade, rowmap, sums
from vc.ring import SR, Unsupported
from vc.sym import SI

LEVEL = "proof"

TEXT = '''
def f(a):
    import functions.shared as s
    return {"text": s.format_elapsed_time(a["t"])}
'''

LEFT = '''
def f(a):
    import numba
    import functions.timestepping as s
    t = list(a["times"])
    was = numba.config.DISABLE_JIT
    numba.config.DISABLE_JIT = not a["jit"]
    try:
        r = s.calculate_time_left(t, a["frame"], a["frames"], a["every"], a["start"])
    finally:
        numba.config.DISABLE_JIT = was
    return {"left": float(r[0]), "kept": t == list(a["times"])}
'''


def parse(s):
    """(days, hours, minutes, seconds) shown by the text, or None."""
    m = re.fullmatch(r"\s*(\d+(?:\.\d+)?)\s*s\s*", s)
    if m:
        return "s", float(m.group(1))
    m = re.fullmatch(r"\s*(?:(\d+)\s*d)?\s*(?:(\d+):)?\s*(\d+):(\d+)\s*", s)
    if not m:
        return None
    return tuple(int(x or 0) for x in m.groups())


def check_text(ck, t, tag):
    g = None
    from vc import real
    try:
        g = ck.real.call(TEXT, {"t": t})["text"]
    except real.RealError as e:
        ck.violation("elapsed time text raised %s" % str(e)[:200], dict(function="format_elapsed_time", input=dict(t=t), error=str(e)))
        return False
    ck.evaluated((tag, t), dict(seconds=t, text=g))
    w = int(t)
    want = (w // 86400, w // 3600 % 24, w // 60 % 60, w % 60)
    p = parse(g)
    if p is not None and p[0] == "s":
        ok = t < 60 and abs(p[1] - t) <= .0501
    else:
        ok = p == want
    if not ok:
        ck.violation("elapsed time text does not show the whole days, hours, minutes and seconds",
                     dict(function="format_elapsed_time", input=dict(t=t), got=g, expected="%dd %d:%d:%d" % want))
    return ok


def oracle(a):
    st, fr, m = a["start"], a["frame"], a["every"]
    t = a["times"]
    longs = [t[i] for i in range(st, fr + 1) if i == st or i % m == 0]
    shorts = [t[i] for i in range(st, fr + 1) if i != st and i % m]
    if a["jit"] and len(longs) > 1:
        longs = longs[1:]
    la = sum(longs) / len(longs)
    sa = sum(shorts) / len(shorts) if shorts else la
    rest = range(fr + 1, a["frames"])
    nl = sum(1 for i in rest if i % m == 0)
    return 1.03 * (nl * la + (len(rest) - nl) * sa)


def check_left(ck, a, tag):
    return common.agree(ck, "time-left estimate", LEFT, a, {"left": oracle(a), "kept": True}, rtol=1e-9, atol=1e-12, tag=tag, fname="calculate_time_left",
                        sample=dict(frame=a["frame"], frames=a["frames"], every=a["every"], start=a["start"], compiled=a["jit"], class_=tag))


def text_obligations(ck):
    m = common.world().load("functions.shared")

    def harness():
        t = ring.free("t", nonneg=True)
        return t, m.format_elapsed_time(t)
    seen = 0
    for ctx, (kd, res) in sym.explore(harness, limit=60):
        ck.paths += 1
        if kd != "ok":
            raise Unsupported("exception on a path: %r" % (res,))
        t, text = res
        if ctx.signs and sym.entails(ctx, lambda z: z3.BoolVal(False)):
            ck.dead += 1
            continue
        seen += 1
        parts = facade.untoken(text)
        vals = [p for p in parts if isinstance(p, tuple)]
        # the shape of the text, with every number written as 0
        form = parse("".join(p if isinstance(p, str) else "0" for p in parts))

        def conc(env, name):
            for x in (0., 59.7, 60., 61.2, 3599.9, 3600., 3661., 86399., 86400., 90061.5, 1e6, 90000.):
                check_text(ck, x, "counterexample")
        q = lambda e: sym.floor(e)
        if form is not None and form[0] == "s":
            if len(vals) != 1 or not re.fullmatch(r"\d*\.[1-9]\d*f", vals[0][0]):
                raise Unsupported("text form")
            ck.entail("under a minute: shows the seconds", ctx, lambda z: z3.And(z(vals[0][1]) == z(t), z(t) < 60), conc)
            continue
        if form is None or not 2 <= len(vals) <= 4 or any(not re.fullmatch(r"0?\d*[di]", v[0]) for v in vals):
            raise Unsupported("text form %r" % (parts,))
        n = len(vals)
        # values printed with %d are truncated
        shown = [sym.floor(v[1]) for v in vals]
        ck.entail("%d fields: values shown are not negative" % n, ctx, lambda z: z3.And(*[z(v[1]) >= 0 for v in vals]), conc)
        unit = [86400, 3600, 60, 1][-n:]
        for k in range(n):
            want = q(t / unit[k])
            if k:
                want = want - q(t / unit[k - 1]) * (unit[k - 1] // unit[k])
            ck.entail("%d fields: field %d is the whole number contained" % (n, k), ctx, lambda z: z(shown[k]) == z(want), conc)
        if n < 4:
            ck.entail("%d fields: nothing left out" % n, ctx, lambda z: z(t) < unit[0] * {1: 60, 60: 60, 3600: 24}[unit[0]], conc)
    if not seen:
        raise Unsupported("vacuous")


def left_obligations(ck, jit):
    m = common.world_no_tables().load("functions.timestepping")

    def harness():
        st, fr, N, ev = SI.var("start"), SI.var("frame"), SI.var("frames"), SI.var("every")
        for c in (st.z() >= 0, fr.z() >= st.z(), N.z() > fr.z(), ev.z() >= 1):
            sym.iassume(c)
        times = rowmap.array("times", (N,))
        v = SI.var("v")
        lng = lambda i: z3.Or((i % ev).z() == 0, i.z() == st.z())
        sht = lambda i: z3.And((i % ev).z() != 0, i.z() != st.z())
        tot = lambda f, lo, hi, x, c=False: sums.total("v", lo, hi, f(v), x, c)
        nl = tot(lng, st, fr + 1, 1, True)
        # the first frame of the run is a rebuilding one, and a count is a whole number
        sym.assume(nl >= 1)
        if jit and not nl >= 2:
            sym.assume(nl <= 1)
        m.numba.config.DISABLE_JIT = not jit
        r = m.calculate_time_left(times, fr, N, ev, st)
        e = rowmap.elt("times", (v,))
        ns = tot(sht, st, fr + 1, 1, True)
        if not jit:
            la = tot(lng, st, fr + 1, e) / nl
        elif nl >= 2:
            la = tot(lng, st + 1, fr + 1, e) / (nl - 1)
        else:
            la = rowmap.elt("times", (st,))
        sa = tot(sht, st, fr + 1, e) / ns if ns > 0 else la
        rl = tot(lambda i: (i % ev).z() == 0, fr + 1, N, 1, True)
        rs = tot(lambda i: (i % ev).z() != 0, fr + 1, N, 1, True)
        return SR.lift(r[0]) - (rl * la + rs * sa) * 103 / 100
    seen = 0
    for ctx, (kd, res) in sym.explore(harness, limit=60):
        ck.paths += 1
        if kd == "dead":
            ck.dead += 1
            continue
        if kd == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        seen += 1

        def conc(env, name):
            sweep(ck, np.random.default_rng(2), 6, "counterexample")
        ck.zero(("with compilation, " if jit else "") + "time left is 1.03 times the remaining frames of each kind times their average", res, ctx, conc)
    if not seen:
        raise Unsupported("vacuous")


def sweep(ck, rng, top, tag):
    for frames in range(1, top):
        for start in range(0, frames):
            for fr in range(start, frames):
                for ev in range(1, 5):
                    if rng.random() < (.5 if top < 8 else .3):
                        a = dict(times=[float(x) for x in rng.uniform(.1, 9, frames)], frame=fr, frames=frames, every=ev, start=start, jit=bool(rng.random() < .3))
                        if not check_left(ck, a, tag):
                            return


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("with just-in-time compilation on, the first frame of the run, which includes compiling, is left out of the average once another rebuilding frame has been timed")
    ck.assume("a sum or count over frames is an unknown that equals another when range, filter (by z3) and element agree")
    ck.under_contract("format_elapsed_time", "calculate_time_left")
    ck.guard("elapsed time text", text_obligations, ck)
    for jit in (False, True):
        ck.guard("time left" + (" with compilation" if jit else ""), left_obligations, ck, jit)
    rng = np.random.default_rng(ck.seed + 24)
    ts = [0., .04, .5, 1., 9.96, 59.9, 60., 60.5, 61., 119.99, 599., 600., 3599., 3599.9, 3600., 3601., 3660., 35999., 36000., 86399., 86399.9, 86400., 86401.,
          90000., 90061., 172799., 172800., 864000., 31536000.]
    for t in ts + [float(x) for x in 10 ** rng.uniform(-1, 7, 40 if ck.quick else 800)] + [int(x) for x in 10 ** rng.uniform(0, 7, 10)]:
        if not check_text(ck, t, "text"):
            break
    sweep(ck, rng, 7 if ck.quick else 12, "enumerated")
    for _ in range(20 if ck.quick else 300):
        fr = int(rng.integers(1, 60))
        N = fr + int(rng.integers(1, 100))
        a = dict(times=[float(x) for x in rng.uniform(.1, 9, N)], frame=fr, frames=N, every=int(rng.integers(1, 20)), start=int(rng.integers(0, fr + 1)), jit=bool(rng.integers(2)))
        if not check_left(ck, a, "random"):
            break
