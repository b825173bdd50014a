"""C13: each time-stepping scheme advances particles by its own formula."""
import inspect
import itertools
import types
import numpy as np
from vc import ring, sym, common, facade, rowmap, simrun
from vc.ring import SR, Unsupported
from vc.sym import SI
from vc.lazyarr import LArr

LEVEL = "proof"
HALF = SR.const(1) / 2


# ---------------------------------------------------------------- real code
def check_real(ck, j, tag, rotations=False):
    """Every pair of successive saved frames against the scheme (own integrator)."""
    from vc import real
    p, s = j["model"], j["settings"]
    rep = dict(function="run_simulation.py", run=j, class_=tag)
    try:
        g = ck.real.call(simrun.CODE, j, timeout=120)
    except real.RealError as e:
        ck.violation("the simulation raised %s" % str(e)[:200], dict(rep, error=str(e)))
        return False
    if "saved" not in g:
        raise real.RealMissing("no saved history to compare")
    ss, x0, rot0, ds, xb0, dx0 = [np.asarray(v, float) for v in j["posdata"]]
    ns, nf, dt = len(ss), s["num_frames"], s["timestep"]
    c, d, r = (np.asarray(g["saved"][k], float) for k in ("centres", "deltax", "sphere_rotations"))
    if g["solves"] == 0:
        raise real.RealMissing("the solver was reached under another name")
    if len(c) < 2:
        raise real.RealMissing("history too short to compare")
    scheme = s["timestepping_scheme"]
    for n in range(min(nf, len(c) - 1)):
        ck.evaluated((tag, scheme, ns, len(ds), p["L"] is not None, n), dict(scheme=scheme, spheres=ns, dumbbells=len(ds), periodic=p["L"] is not None, frame=n, step=dt))
        prev = (c[n - 1, :ns], c[n - 1, ns:], d[n - 1]) if n else None
        (x, xb, dx), O = simrun.step(p, scheme, n == 0, ss, ds, (c[n, :ns], c[n, ns:], d[n]), prev, n, dt)
        if s["fully_2d_problem"]:
            x[:, 1] = c[n, :ns, 1]
        e = np.concatenate([x, xb]) - c[n + 1]
        if p["L"] is not None:
            # positions are only defined up to box vectors of the new time
            B = simrun.lattice(p, (n + 1) * dt)
            q = np.linalg.solve(B.T, e.T).T
            e = (q - np.round(q)) @ B
        if rotations:
            want, got = markers(r[n] - c[n, :ns, None], O, dt), r[n + 1] - c[n + 1, :ns, None]
            bad = [("orientation markers", np.abs(got - want).max() if ns else 0.)]
        else:
            bad = [("sphere centres", np.abs(e[:ns]).max() if ns else 0.), ("dumbbell centres", np.abs(e[ns:]).max() if len(ds) else 0.),
                   ("dumbbell extensions", np.abs(dx - d[n + 1]).max() if len(ds) else 0.)]
        for what, b in bad:
            if not b < 1e-9:
                ck.violation("%s from frame %d to %d are off the %s formula by %.3g" % (what, n, n + 1, scheme, b),
                             dict(rep, frame=n, before=dict(centres=c[n], deltax=d[n], rotations=r[n]), got=dict(centres=c[n + 1], deltax=d[n + 1], rotations=r[n + 1]),
                                  expected=dict(spheres=x, dumbbells=xb, deltax=dx)))
                return False
    if j["log"]:
        for fr, h, pd in g["log"]:
            for k in (0, 3):
                if np.asarray(pd[k]).shape != np.asarray(j["posdata"][k]).shape or not np.array_equal(np.asarray(pd[k], float), np.asarray(j["posdata"][k], float)):
                    ck.violation("particle sizes changed during the run", dict(rep, frame=fr, sizes=pd[k]))
                    return False
    return True


def markers(v, O, dt):
    """Rotate the marker vectors (n, 2, 3) about O by |O| dt."""
    out = np.array(v)
    for i in range(len(v)):
        w = np.linalg.norm(O[i])
        if w == 0:
            continue
        k, th = O[i] / w, w * dt
        for m in range(2):
            u = v[i, m]
            out[i, m] = u * np.cos(th) + np.cross(k, u) * np.sin(th) + k * (k @ u) * (1 - np.cos(th))
    return out


def jobs(rng, quick):
    dts = [.1, .25, .03]
    for rnd in range(1 if quick else 6):
        for periodic in (False, True):
            for scheme in ("euler", "ab2", "rk4"):
                for ns, nd in ((2, 2), (3, 0), (0, 2), (1, 1)):
                    p, pos = simrun.example(rng, ns, nd, periodic)
                    yield simrun.job(p, pos, timestepping_scheme=scheme, num_frames=4, timestep=dts[int(rng.integers(3))], log=True), "random"
        for scheme in ("euler", "ab2", "rk4"):
            p, pos = simrun.example(rng, 2, 1)
            # no background flow; and a run longer than the periods the frame number is compared with
            yield simrun.job(dict(p, shear=0.), pos, timestepping_scheme=scheme, num_frames=3, timestep=.1, log=True), "still fluid"
            yield simrun.job(p, pos, timestepping_scheme=scheme, num_frames=24, timestep=.05, log=True, invert_m_every=10), "long"
            pos2 = tuple(np.round(v).astype(int) if k in (1, 2, 4) else v for k, v in enumerate(pos))
            yield simrun.job(p, pos2, timestepping_scheme=scheme, num_frames=3, timestep=.1), "whole-number positions"
        for scheme in ("euler", "ab2"):
            p, pos = simrun.example(rng, 2, 0)
            yield simrun.job(p, pos, timestepping_scheme=scheme, num_frames=3, timestep=.1, fully_2d_problem=True), "two-dimensional"


# ---------------------------------------------------------------- symbolic layer
def script():
    """run_simulation.py, whole and unmodified, executed for a run of no frames; its functions can then be called."""
    w = common.world_no_tables()
    st = w.load("settings")
    for k, v in dict(num_frames=0, input_form="fts", view_graphics=False, save_positions_every_n_timesteps=0, save_forces_every_n_timesteps=0,
                     setup_number=-1, input_number=-1, email_on_completion=False).items():
        setattr(st, k, v)
    z = facade.zeros
    pos = types.ModuleType("setups.positions")
    pos.posdata = (z((0,)), z((0, 3)), z((0, 2, 3)), z((0,)), z((0, 3)), z((0, 3)))
    pos.setup_description, pos.checkpoint_filename, pos.checkpoint_start_from_frame = "", "", 0
    w.stubs["setups.positions"] = pos
    inp = w.load("setups.inputs")
    o = facade._mk([0, 0, 0])
    inp.input_ftsuoe = lambda *a, **k: tuple([[]] * 12 + ["", o, o, o, o, o, o, o, 1])
    email = types.ModuleType("functions.email")
    email.send_email = lambda *a, **k: None
    w.stubs["functions.email"] = email
    had = facade.BUILTINS.get("input"), facade.BUILTINS.get("print")
    facade.BUILTINS["input"] = lambda *a: ""
    facade.BUILTINS["print"] = lambda *a, **k: None
    try:
        return w, w.load("run_simulation")
    finally:
        del facade.BUILTINS["input"]
        del facade.BUILTINS["print"]
        for k, v in zip(("input", "print"), had):
            if v is not None:
                facade.BUILTINS[k] = v


class Sink:
    """A list only written to."""
    def __setitem__(self, k, v):
        pass


def sr(t):
    return SR.lift(t._as_SR() if isinstance(t, SI) else t)


def tkey(t):
    """One name per time, however it was computed: frame number f plus an offset."""
    t = sr(t)
    for f in TIMES:
        d = t - f[1]
        if not d.free_gens():
            return "%s%+g" % (f[0], float(d.eval({})))
    raise Unsupported("time %r" % (t,))


TIMES = []


class World:
    """Contracts of the callees and the ghost record of how they were called."""

    def __init__(self, m, ns, nd, periodic):
        self.m, self.ns, self.nd, self.periodic = m, ns, nd, periodic
        self.calls, self.wraps, self.turns = [], [], []
        ts = m.generate_output_FTSUOE
        self.sig = inspect.signature(ts)
        m.generate_output_FTSUOE = self.solve
        self.wsig = inspect.signature(m.wrap_around)
        m.wrap_around = self.wrap
        self.rsig = inspect.signature(m.euler_timestep_rotation)
        self.asig = inspect.signature(m.ab2_timestep_rotation)
        m.euler_timestep_rotation = self.turn
        m.ab2_timestep_rotation = self.turn2
        m.did_something_go_wrong_with_dumbells = lambda error, *a: error
        m.input_ftsuoe = self.inputs
        m.calculate_time_left = lambda *a: (0, "")
        m.format_time_left = m.format_finish_time = m.format_elapsed_time = m.sizeof_fmt = lambda *a: ""
        m.times = Sink()
        m.psutil = types.SimpleNamespace(Process=lambda *a: types.SimpleNamespace(memory_info=lambda: types.SimpleNamespace(rss=0)))

    def arr(self, name, n, *tail):
        return rowmap.array(name, (n,) + tail) if isinstance(n, SI) else facade.zeros((n,) + tail)

    def shear(self, t):
        k = tkey(t)
        return common.sarr("Ot@%s" % k, 3), common.sarr("Et@%s" % k, 3, 3)

    def inputs(self, n, posdata, frameno, *a, **kw):
        Ot, Et = self.shear(frameno)
        return tuple([[]] * 12 + ["", 0, 0, 0, Ot, Et, self.box[0], self.box[1], 1])

    def solve(self, *a, **kw):
        b = self.sig.bind(*a, **kw).arguments
        q = len(self.calls)
        A = lambda name, n, *tail: self.arr("%s#%d" % (name, q), n, *tail)
        ns, nd = self.ns, self.nd
        U, O, c = (common.sarr("%s#%d" % (v, q), 3) for v in ("Uinf", "Oinf", "cen"))
        E = A("E", ns if isinstance(ns, SI) else SI.var("ne"), 3, 3)
        Ot, Et = self.shear(b["frameno"])
        rec = dict(posdata=b["posdata"], frameno=b["frameno"], timestep=b["timestep"], q=q, U=U, O=O, c=c)
        self.calls.append(rec)
        return (A("Fa", ns, 3), A("Ta", ns, 3), A("Sa", ns, 3, 3), A("Fb", nd, 3), A("DFb", nd, 3), A("u", ns, 3), A("w", ns, 3), E,
                A("ub", nd, 3), A("hb", nd, 3), ("inverse", q), [0, 0, 0, 0], U, O, c, Ot, Et, common.sarr("wall#%d" % q, 1), ("vector", q))

    def wrap(self, *a, **kw):
        b = self.wsig.bind(*a, **kw)
        b.apply_defaults()
        x, lo, hi, Ot, Et = b.args
        q = len(self.wraps)
        d = rowmap.array("shift#%d" % q, tuple(x.shape))
        self.wraps.append(dict(q=q, lo=lo, hi=hi, Ot=Ot, Et=Et))
        return x + d

    def turn(self, *a, **kw):
        b = self.rsig.bind(*a, **kw).arguments
        return self._turn(*b.values())

    def turn2(self, *a, **kw):
        x, r, nx, nr, O, Op, dt = self.asig.bind(*a, **kw).arguments.values()
        return self._turn(x, r, nx, nr, O * (3 * HALF) - Op * HALF, dt)

    def _turn(self, x, r, nx, nr, O, dt):
        q = len(self.turns)
        out = rowmap.array("turned#%d" % q, (self.ns, 2, 3))
        self.turns.append(dict(q=q, x=x, r=r, nx=nx, O=O, dt=dt, out=out))
        return out


def background(call, x, i, k, rows):
    """Uniform flow + rotation and strain about the centre at x, for component k."""
    O, c = call["O"], call["c"]
    y = [x[l] - c[l] for l in range(3)]
    r = call["U"][k] + O[(k + 1) % 3] * y[(k + 2) % 3] - O[(k + 2) % 3] * y[(k + 1) % 3]
    for l in range(3):
        r = r + rowmap.elt("E#%d" % call["q"], (i if rows else 0, k, l)) * y[l]
    return r


class Particle:
    """The generic sphere, or the generic dumbbell, under the scheme."""

    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    def vel(self, call, state):
        """(velocity, extension velocity or angular velocity) found for a stage, plus background."""
        i, q = self.i, call["q"]
        e = rowmap.elt
        if self.kind == "sphere":
            u = [e("u#%d" % q, (i, k)) + background(call, state[0], i, k, True) for k in range(3)]
            return u, [e("w#%d" % q, (i, k)) + call["O"][k] for k in range(3)]
        u = [e("ub#%d" % q, (i, k)) + background(call, state[0], i, k, False) for k in range(3)]
        O, dx = call["O"], state[1]
        h = []
        for k in range(3):
            t = O[(k + 1) % 3] * dx[(k + 2) % 3] - O[(k + 2) % 3] * dx[(k + 1) % 3]
            for l in range(3):
                t = t + e("E#%d" % q, (0, k, l)) * dx[l]
            h.append(2 * e("hb#%d" % q, (i, k)) + t)
        return u, h


def add(a, h, b):
    return [p + h * q for p, q in zip(a, b)]


def get(arr, i):
    if isinstance(arr, LArr):
        return [arr.get((i, k)) for k in range(3)]
    raise Unsupported("positions are not an array of rows")


def deductive(ck, scheme, ns1, nd1, periodic, first, frames, markers=False):
    """Obligations of a frame; markers: only those about orientation markers (C12), else all others."""
    w, m = script()
    tag = "%s, %s%s%s%s" % (scheme, "spheres" if ns1 else "", " and " if ns1 and nd1 else "", "dumbbells" if nd1 else "", ", periodic" if periodic else "")
    for k, v in dict(timestepping_scheme=scheme, invert_m_every=1, fully_2d_problem=False, feed_every_n_timesteps=0, explosion_protection=False,
                     save_positions_every_n_timesteps=0, save_forces_every_n_timesteps=0, rk4_generate_minfinity_for_each_stage=True,
                     extract_force_on_wall_due_to_dumbbells=False, printout=0).items():
        if not hasattr(m, k):
            raise Unsupported("no setting %s" % k)
    base = dict(m.__dict__)

    def harness():
        facade.CREATED.clear()
        m.__dict__.clear()
        m.__dict__.update(base)
        for k, v in dict(timestepping_scheme=scheme, invert_m_every=1, fully_2d_problem=False, save_positions_every_n_timesteps=0,
                         save_forces_every_n_timesteps=0, save_to_temp_file_every_n_timesteps=1, error=False, view_graphics=False,
                         print=lambda *a, **k: None).items():
            m.__dict__[k] = v
        ns = SI.var("ns") if ns1 else 0
        nd = SI.var("nd") if nd1 else 0
        for v in (ns, nd, SI.var("ne")):
            if isinstance(v, SI):
                sym.iassume(v.z() >= 1)
        start, f = SI.var("start"), SI.var("f")
        sym.iassume(start.z() >= 0)
        sym.iassume(f.z() == start.z() if first else f.z() > start.z())
        m.num_frames = SI.var("num_frames")
        m.checkpoint_start_from_frame = start
        if first:
            f = start
        W = World(m, ns, nd, periodic)
        TIMES[:] = [("f", sr(f))]
        dt = ring.free("dt", pos=True)
        o = facade._mk
        W.box = (o([-4, -3, -5]), o([4, 3, 5])) if periodic else (o([0, 0, 0]), o([0, 0, 0]))
        A = W.arr
        pd = (A("a", ns), A("x", ns, 3), A("rot", ns, 2, 3), A("ab", nd), A("xb", nd, 3), A("dx", nd, 3))
        m.posdata = pd
        # anything may have happened before
        m.last_velocities = [A("pu", ns, 3) if ns1 else 0, A("pub", nd, 3) if nd1 else 0, A("phb", nd, 3) if nd1 else 0, A("pw", ns, 3) if ns1 else 0]
        m.last_velocity_vector = ("vector", -1)
        m.last_generated_Minfinity_inverse = ("inverse", -1)
        parts = []
        for on, kind, n in ((ns1, "sphere", ns), (nd1, "dumbbell", nd)):
            if on:
                i = SI.var("i_" + kind)
                sym.iassume(i.z() >= 0)
                sym.iassume(i.z() < n.z())
                parts.append(Particle(kind, i))
        out, checks = [], []
        prevel = None
        facade.LOOP_HOOK[0] = rowmap.RowMap()
        sig = inspect.signature(m.generate_frame)
        kw = {k: v for k, v in dict(timestep=dt, view_graphics=False, box_bottom_left=W.box[0], box_top_right=W.box[1], input_form="fts",
                                    filename="f", printout=0).items() if k in sig.parameters}
        try:
            for q in range(frames):
                before = m.posdata
                base_calls, base_wraps, base_turns = len(W.calls), len(W.wraps), len(W.turns)
                m.generate_frame(f + q, 0, **kw)
                calls = W.calls[base_calls:]
                prevel = expect(W, scheme, first and q == 0, parts, before, m.posdata, calls, base_wraps, base_turns, f + q, dt, prevel, out, checks,
                                "step %d: " % q if frames > 1 else "")
        finally:
            facade.LOOP_HOOK[0] = None
        return out, checks

    seen, tried = 0, []
    for ctx, (kind, res) in sym.explore(harness, limit=200, deadline=ck.deadline):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            import traceback
            raise Unsupported("exception on a path: %s" % "".join(traceback.format_exception(res))[-700:])
        seen += 1

        def conc(env, name):
            if tried:
                return
            tried.append(name)
            for j, t in jobs(np.random.default_rng(1), True):
                if not check_real(ck, j, "counterexample", rotations=markers):
                    return
        for name, d in res[0]:
            if markers != ("markers" in name):
                continue
            ck.zero("%s%s: %s" % (tag, ", first step" if first else "", name), d, ctx, conc)
        for name, ok in res[1]:
            if markers:
                continue
            if ok:
                ck.record("%s%s: %s" % (tag, ", first step" if first else "", name), "proved", "structural")
            else:
                ck.record("%s%s: %s" % (tag, ", first step" if first else "", name), "undecided", "structural")
    if not seen:
        raise Unsupported("vacuous")


def image(W, got, want, i, t, k0, out, name):
    """got = want, or the image of it a wrapping at time t gave."""
    d = [p - q for p, q in zip(got, want)]
    if W.periodic:
        gens = {g for x in d for g in SR.lift(x).free_gens()}
        for wr in W.wraps[k0:]:
            sh = [rowmap.elt("shift#%d" % wr["q"], (i, k)) for k in range(3)]
            if any(common.gid(s) in gens for s in sh):
                d = [x - s for x, s in zip(d, sh)]
                Ot, Et = W.shear(t)
                for k in range(3):
                    out.append((name + " wrapped in the box of its own time: rotation[%d]" % k, SR.lift(wr["Ot"][k]) - Ot[k]))
                    out.append((name + " wrapped in the box: corners[%d]" % k, SR.lift(wr["hi"][k] - wr["lo"][k]) - SR.lift(W.box[1][k] - W.box[0][k])))
                    for l in range(3):
                        out.append((name + " wrapped in the box of its own time: strain[%d,%d]" % (k, l), SR.lift(wr["Et"][k, l]) - Et[k, l]))
                break
    for k in range(3):
        out.append(("%s[%d]" % (name, k), d[k]))


def expect(W, scheme, euler_first, parts, before, after, calls, k0, t0, f, dt, prevel, out, checks, pre):
    """Obligations of one frame; returns the velocities of this frame (for the next)."""
    nst = 4 if scheme == "rk4" else 1
    if len(calls) != nst:
        raise Unsupported("%d velocity solutions in a %s step" % (len(calls), scheme))
    tt = lambda c: sr(f) + SR.lift(c)
    C = [0, HALF, HALF, 1][:nst]
    H = [None, HALF, HALF, SR.const(1)]
    vel, this = {}, {}
    for q, call in enumerate(calls):
        out.append((pre + "stage %d is for the right time" % q, sr(call["frameno"]) - tt(C[q])))
        out.append((pre + "stage %d is for the right step length" % q, SR.lift(call["timestep"]) - dt))
        for P in parts:
            i = P.i
            b = (1, None) if P.kind == "sphere" else (4, 5)
            x0 = get(before[b[0]], i)
            d0 = get(before[b[1]], i) if b[1] else None
            if q == 0:
                st = (x0, d0)
            else:
                v = vel[P.kind, q - 1]
                h = H[q] * dt
                st = (add(x0, h, v[0]), add(d0, h, v[1]) if d0 else None)
            got = get(call["posdata"][b[0]], i)
            image(W, got, st[0], i, tt(C[q]), k0, out, "%sstage %d: %s centre" % (pre, q, P.kind))
            if d0:
                for k, (g, s) in enumerate(zip(get(call["posdata"][b[1]], i), st[1])):
                    out.append(("%sstage %d: dumbbell extension[%d]" % (pre, q, k), g - s))
            vel[P.kind, q] = P.vel(call, st)
            sz = 0 if P.kind == "sphere" else 3
            out.append(("%sstage %d: %s size" % (pre, q, P.kind), call["posdata"][sz].get((i,)) - rowmap.elt("a" if sz == 0 else "ab", (i,))))
    for P in parts:
        i = P.i
        b = (1, None) if P.kind == "sphere" else (4, 5)
        V = [vel[P.kind, q] for q in range(nst)]
        this[P.kind] = V[0]
        if scheme == "rk4":
            comb = [[(V[0][c][k] + 2 * V[1][c][k] + 2 * V[2][c][k] + V[3][c][k]) / 6 for k in range(3)] for c in (0, 1)]
        elif scheme == "euler" or euler_first:
            comb = V[0]
        else:
            if prevel is None:
                e = rowmap.elt
                old = ([e("pu", (i, k)) for k in range(3)], [e("pw", (i, k)) for k in range(3)]) if P.kind == "sphere" else \
                    ([e("pub", (i, k)) for k in range(3)], [2 * e("phb", (i, k)) for k in range(3)])
            else:
                old = prevel[P.kind]
            comb = [[3 * HALF * V[0][c][k] - HALF * old[c][k] for k in range(3)] for c in (0, 1)]
        x0 = get(before[b[0]], i)
        new = get(after[b[0]], i)
        image(W, new, add(x0, dt, comb[0]), i, tt(1), k0, out, "%snew %s centre" % (pre, P.kind))
        if b[1]:
            for k, (g, s) in enumerate(zip(get(after[b[1]], i), add(get(before[b[1]], i), dt, comb[1]))):
                out.append(("%snew dumbbell extension[%d]" % (pre, k), g - s))
        else:
            tr = [t for t in W.turns[t0:] if t["out"] is after[2]]
            if len(tr) != 1:
                raise Unsupported("orientation markers not from the rotation update")
            tr = tr[0]
            for k in range(3):
                out.append(("%smarkers turn from the old centre[%d]" % (pre, k), get(tr["x"], i)[k] - x0[k]))
                out.append(("%smarkers are carried to the new centre[%d]" % (pre, k), get(tr["nx"], i)[k] - new[k]))
                out.append(("%smarkers turn with the scheme's angular velocity[%d]" % (pre, k), get(tr["O"], i)[k] - comb[1][k]))
                for mk in range(2):
                    out.append(("%smarkers turn from their old ends[%d,%d]" % (pre, mk, k), tr["r"].get((i, mk, k)) - before[2].get((i, mk, k))))
            out.append((pre + "markers turn for the step", SR.lift(tr["dt"]) - dt))
        sz = 0 if P.kind == "sphere" else 3
        out.append(("%snew %s size" % (pre, P.kind), after[sz].get((i,)) - rowmap.elt("a" if sz == 0 else "ab", (i,))))
        from vc.lazyarr import _same
        n = W.ns if P.kind == "sphere" else W.nd
        checks.append(("%sthe number of %ss stays" % (pre, P.kind), _same(after[sz].shape[0], n) and _same(after[b[0]].shape[0], n)))
    return this


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("contracts of the callees: generate_output_FTSUOE gives arbitrary velocities and background flow (C10), wrap_around moves to an image in the box it is given (C14), "
              "the rotation update turns markers (C12), did_something_go_wrong_with_dumbells reports no error (C22)")
    ck.assume("fully_2d_problem is off in the obligations (run on the real code for Euler and AB2); no saving in the obligations (C23)")
    ck.under_contract("generate_frame (run_simulation.py, executed whole)", "euler_timestep", "ab2_timestep", "add_background_flow_spheres", "add_background_flow_dumbbells", "posdata_data")
    for scheme in ("euler", "ab2", "rk4"):
        for ns1, nd1 in ((True, True), (True, False), (False, True)):
            for periodic in (False, True):
                for first in (True, False):
                    frames = 2 if scheme == "ab2" else 1
                    ck.guard("%s %s %s %s %s" % (scheme, ns1, nd1, periodic, first), deductive, ck, scheme, ns1, nd1, periodic, first, frames)
    rng = np.random.default_rng(ck.seed + 13)
    for j, tag in jobs(rng, ck.quick):
        if not check_real(ck, j, tag):
            break
