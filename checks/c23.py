"""C23: saved history holds the right frames in order, and resuming continues it."""
import inspect
import types
import numpy as np
import z3
from vc import ring, sym, common, facade, rowmap, simrun
from vc.ring import SR, Unsupported
from vc.sym import SI, SBool
from vc.lazyarr import LArr
from checks import c13

LEVEL = "proof"
POS = ("centres", "sphere_rotations", "deltax")
FOR = ("Fa", "Fb", "DFb", "Sa", "force_on_wall_due_to_dumbbells")
P = dict(L=None, rate=0., shear=1.)


# ---------------------------------------------------------------- real code
def reference(ck, scheme, setup, nf, dt):
    """What the solver was asked at each frame of a long run: the configuration at the start of every frame, and its forces."""
    g = ck.real.call(simrun.CODE, simrun.job(P, None, setup=setup, log=True, timestepping_scheme=scheme, num_frames=nf + 1, timestep=dt))
    nst = 4 if scheme == "rk4" else 1
    if len(g["log"]) != nst * (nf + 1):
        from vc import real
        raise real.RealMissing("%d velocity solutions in %d %s frames" % (len(g["log"]), nf + 1, scheme))
    ref = []
    for n in range(nf + 1):
        stages = []
        for fr, h, pd in g["log"][n * nst:(n + 1) * nst]:
            ss, x, rot, ds, xb, dx = [np.asarray(v, float) for v in pd]
            Fa, Sa, Fb, Db = simrun.forces(P, ss, x, ds, xb, dx, fr * dt)
            stages.append(dict(Fa=Fa, Sa=Sa, Fb=Fb, DFb=Db, force_on_wall_due_to_dumbbells=np.array([np.sum(Fa) + fr * dt])))
        ss, x, rot, ds, xb, dx = [np.asarray(v, float) for v in g["log"][n * nst][2]]
        w = [1.] if nst == 1 else [1 / 6, 1 / 3, 1 / 3, 1 / 6]
        d = {k: sum(c * s[k] for c, s in zip(w, stages)) for k in FOR}
        d.update(centres=np.concatenate([x, xb]), sphere_rotations=rot, deltax=dx)
        ref.append(d)
    return ref


def due(nf, every, start):
    return [f for f in range(start, nf) if every > 0 and f % every == 0]


def expected(ref, nf, ep, ef, start):
    dp, df = due(nf, ep, start), due(nf, ef, start)
    if dp and dp[-1] == nf - 1:
        dp = dp + [nf]
    return {**{k: [ref[f][k] for f in dp] for k in POS}, **{k: [ref[f][k] for f in df] for k in FOR}}


def check_real(ck, j, want, tag):
    from vc import real
    s = j["settings"]
    rep = dict(function="run_simulation.py", run=j, class_=tag)
    try:
        g = ck.real.call(simrun.CODE, j, timeout=120)
    except real.RealError as e:
        ck.violation("the simulation raised %s" % str(e)[:200], dict(rep, error=str(e)))
        return None
    ck.evaluated((tag, s["timestepping_scheme"], s["num_frames"], s["save_positions_every_n_timesteps"], s["save_forces_every_n_timesteps"],
                  s["start_saving_after_first_n_timesteps"], s["save_to_temp_file_every_n_timesteps"], tuple(j["stops"])),
                 dict(scheme=s["timestepping_scheme"], frames=s["num_frames"], stops=j["stops"], positions_every=s["save_positions_every_n_timesteps"],
                      forces_every=s["save_forces_every_n_timesteps"], start=s["start_saving_after_first_n_timesteps"]))
    if g["final"] != 1 or "saved" not in g:
        ck.violation("the run left %d result files (%s)" % (g["final"], ", ".join(g["files"])), rep)
        return None
    sv = g["saved"]
    if want is None:
        return sv
    for k in POS + FOR:
        a = np.asarray(sv.get(k, []), float)
        w = want[k]
        if len(a) != len(w):
            ck.violation("%d entries saved of %s, %d due (%s)" % (len(a), k, len(w), tag), dict(rep, got=a, expected=list(w)))
            return None
        for q in range(len(w)):
            if np.asarray(a[q]).size != np.asarray(w[q]).size or np.asarray(w[q]).size and not np.allclose(np.ravel(a[q]), np.ravel(w[q]), rtol=1e-9, atol=1e-10):
                ck.violation("saved entry %d of %s is not that of its frame (%s)" % (q, k, tag), dict(rep, got=a[q], expected=w[q], entry=q, array=k))
                return None
    return sv


def plans(rng, quick):
    fixed = [(6, 1, 1, 0, 1), (6, 2, 2, 0, 1), (6, 1, 1, 2, 1), (7, 2, 2, 1, 1), (8, 3, 3, 1, 1), (7, 2, 3, 0, 1), (7, 3, 1, 0, 2), (7, 1, 3, 2, 1), (5, 2, 0, 0, 1),
             (5, 0, 2, 0, 1), (5, 2, 2, 0, 3), (4, 5, 5, 0, 1), (7, 2, 3, 3, 1), (1, 1, 1, 0, 1), (7, 3, 3, 0, 3)]
    for f in fixed:
        yield f
    for _ in range(3 if quick else 40):
        yield (int(rng.integers(1, 9)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(0, 5)), int(rng.integers(1, 4)))


def concrete(ck):
    rng = np.random.default_rng(ck.seed + 23)
    NF, dt = 9, .1
    for scheme in ("euler", "rk4", "ab2"):
        for setup in (4, 2) if scheme == "euler" else (4,):
            ref = reference(ck, scheme, setup, NF, dt)
            for q, (nf, ep, ef, start, te) in enumerate(plans(rng, ck.quick)):
                S = dict(timestepping_scheme=scheme, num_frames=nf, timestep=dt, save_positions_every_n_timesteps=ep, save_forces_every_n_timesteps=ef,
                         start_saving_after_first_n_timesteps=start, save_to_temp_file_every_n_timesteps=te)
                want = expected(ref, nf, ep, ef, start)
                if check_real(ck, simrun.job(P, None, setup=setup, **S), want, "uninterrupted") is None:
                    return
                if scheme == "ab2":
                    continue    # the two-step scheme restarts with an Euler step (C13)
                stops = [[k] for k in range(1, nf)] if not ck.quick or q < 5 else [[int(rng.integers(1, nf))]] if nf > 1 else []
                if nf > 4 and q % 3 == 0:
                    stops.append([2, 4])
                for st in stops:
                    if check_real(ck, simrun.job(P, None, setup=setup, stops=st, **S), want, "stopped and resumed") is None:
                        return
    # with the real solver: resuming against an uninterrupted run
    for inp in (3,) if ck.quick else (3, 1):
        S = dict(timestepping_scheme="euler", num_frames=4, timestep=.05, save_to_temp_file_every_n_timesteps=1)
        a = check_real(ck, simrun.job(None, None, setup=4, input=inp, **S), None, "real solver")
        if a is None:
            return
        if check_real(ck, simrun.job(None, None, setup=4, input=inp, stops=[2], **S), {k: list(a[k]) for k in POS + FOR}, "real solver, stopped and resumed") is None:
            return


# ---------------------------------------------------------------- symbolic layer
class Rem:
    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        if o == 0 and not isinstance(o, Rem):
            return SBool(z=self.z)
        raise Unsupported("remainder compared with something else than zero")
    __hash__ = None

    def __ne__(self, o):
        if o == 0 and not isinstance(o, Rem):
            return SBool(z=z3.Not(self.z))
        raise Unsupported("remainder compared with something else than zero")

    def __bool__(self):
        return bool(SBool(z=z3.Not(self.z)))


class Every:
    """An arbitrary saving interval: known only by which frames are due."""
    def __init__(self, name):
        self.name = name
        self.due = z3.Function("due_" + name, z3.IntSort(), z3.BoolSort())

    def __vc_rmod__(self, f):
        return Rem(self.due(SI.lift(f).z()))

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return True
        raise Unsupported("interval compared")


def at(arr, o):
    return arr.get(o) if isinstance(arr, LArr) else SR.lift(arr[o])


def frame(ck, scheme, ns1, nd1, state):
    """One frame, arbitrary frame number, intervals and run length.
    state: 'empty' nothing saved yet; 'some' an arbitrary history saved; 'resumed' the first frame after resuming."""
    w, m = c13.script()
    tag = "%s, %s%s, %s" % (scheme, "spheres " if ns1 else "", "dumbbells" if nd1 else "", {"empty": "nothing saved yet", "some": "history saved", "resumed": "first frame after resuming"}[state])
    base = dict(m.__dict__)

    def harness():
        facade.CREATED.clear()
        m.__dict__.clear()
        m.__dict__.update(base)
        ep, ef = Every("positions"), Every("forces")
        ns = SI.var("ns") if ns1 else 0
        nd = SI.var("nd") if nd1 else 0
        n = SI.lift(ns) + nd if isinstance(SI.lift(ns), SI) else SI.lift(nd) + ns
        for v in (ns, nd, SI.var("ne")):
            if isinstance(v, SI):
                sym.iassume(v.z() >= 1)
        start, f, nf, first = (SI.var(k) for k in ("start", "f", "num_frames", "first_saved"))
        for v in (start, f, first):
            sym.iassume(v.z() >= 0)
        sym.iassume(f.z() < nf.z())
        c13.TIMES[:] = [("f", c13.sr(f))]
        if state == "resumed":
            sym.iassume(f.z() == start.z())
            # a checkpoint is at a frame whose positions were saved
            sym.iassume(z3.And(ep.due(f.z()), f.z() >= first.z()))
        elif state == "some":
            sym.iassume(f.z() > start.z())
        else:
            sym.iassume(f.z() >= start.z())
        for k, v in dict(timestepping_scheme=scheme, invert_m_every=1, fully_2d_problem=False, save_positions_every_n_timesteps=ep,
                         save_forces_every_n_timesteps=ef, start_saving_after_first_n_timesteps=first, save_to_temp_file_every_n_timesteps=1,
                         save_forces_and_positions_to_temp_file_as_well=False, error=False, view_graphics=False, num_frames=nf,
                         checkpoint_start_from_frame=start, print=lambda *a, **k: None).items():
            if k != "print" and k not in m.__dict__:
                raise Unsupported("no setting %s" % k)
            m.__dict__[k] = v
        W = c13.World(m, ns, nd, False)
        o = facade._mk
        W.box = (o([0, 0, 0]), o([0, 0, 0]))
        A = W.arr
        m.posdata = (A("a", ns), A("x", ns, 3), A("rot", ns, 2, 3), A("ab", nd), A("xb", nd, 3), A("dx", nd, 3))
        m.last_velocities = [A("pu", ns, 3) if ns1 else 0, A("pub", nd, 3) if nd1 else 0, A("phb", nd, 3) if nd1 else 0, A("pw", ns, 3) if ns1 else 0]
        m.last_velocity_vector = ("vector", -1)
        m.last_generated_Minfinity_inverse = ("inverse", -1)
        T, Tf = SI.var("T"), SI.var("Tf")
        sym.iassume(T.z() >= 1)
        sym.iassume(Tf.z() >= 1)
        names = dict(saved_element_positions=(T, n, 3), saved_sphere_rotations=(T, ns, 2, 3), saved_deltax=(T, nd, 3),
                     saved_Fa_out=(Tf, ns, 3), saved_Fb_out=(Tf, nd, 3), saved_DFb_out=(Tf, nd, 3), saved_Sa_out=(Tf, ns, 3, 3),
                     saved_force_on_wall_due_to_dumbbells=(Tf, 1))
        for k, sh in names.items():
            if k not in m.__dict__:
                raise Unsupported("no global %s" % k)
            m.__dict__[k] = facade.zeros((0,)) if state == "empty" else rowmap.array(k, sh)
        before = m.posdata
        facade.LOOP_HOOK[0] = rowmap.RowMap()
        sig = inspect.signature(m.generate_frame)
        kw = {k: v for k, v in dict(timestep=ring.free("dt", pos=True), view_graphics=False, box_bottom_left=W.box[0], box_top_right=W.box[1], input_form="fts",
                                    filename="f", printout=0).items() if k in sig.parameters}
        try:
            m.generate_frame(f, 0, **kw)
        finally:
            facade.LOOP_HOOK[0] = None
        after = m.posdata
        out, structure = [], []
        isdue = lambda e: bool(SBool(z=z3.And(e.due(f.z()), f.z() >= first.z())))
        last = bool(SBool(z=f.z() == nf.z() - 1))
        rows = {}
        for on, kind, nn in ((ns1, "s", ns), (nd1, "d", nd)):
            if on:
                i = SI.var("i_" + kind)
                sym.iassume(z3.And(i.z() >= 0, i.z() < SI.lift(nn).z()))
                rows[kind] = i
        tp, tf = SI.var("tp"), SI.var("tf")
        for t_, T_ in ((tp, T), (tf, Tf)):
            sym.iassume(z3.And(t_.z() >= 0, t_.z() < T_.z()))

        def one(k, due_, new, final, T, elems):
            """Saved array k: what it held, then new (if due), then final (if given)."""
            arr = m.__dict__[k]
            old = 0 if state == "empty" else T
            want = ([new] if due_ and state != "resumed" else []) + ([final] if due_ and final is not None and last else [])
            if not isinstance(arr, LArr) and not (arr.shape[0] and want):
                structure.append((k + ": nothing added", state == "empty" and not want and arr.shape[0] == 0))
                return
            from vc.lazyarr import _same
            structure.append((k + ": number of entries", _same(arr.shape[0], SI.lift(old) + len(want))))
            for el in elems(T if state != "empty" else 0):
                if state != "empty":
                    t = tp if T is not Tf else tf
                    out.append(("%s: earlier entries are kept %s" % (k, el[0]), at(arr, (t,) + el[1]) - rowmap.elt(k, (t,) + el[1])))
                for q, src in enumerate(want):
                    out.append(("%s: %s %s" % (k, "frame's own entry" if src is new else "final entry", el[0]), at(arr, (SI.lift(old) + q,) + el[1]) - src(el)))

        def centre_elems(T):
            for kind, i in rows.items():
                for c in range(3):
                    yield ("%s[%d]" % (kind, c), ((SI.lift(ns) + i if kind == "d" else i), c), kind, i, c)

        def pick(pd, what):
            def src(el):
                if what == "centre":
                    _, _, kind, i, c = el
                    return pd[1 if kind == "s" else 4].get((i, c))
                if what == "rot":
                    return pd[2].get(el[1])
                return pd[5].get(el[1])
            return src
        dp, df = isdue(ep), isdue(ef)
        one("saved_element_positions", dp, pick(before, "centre"), pick(after, "centre"), T, centre_elems)
        if ns1:
            one("saved_sphere_rotations", dp, pick(before, "rot"), pick(after, "rot"), T,
                lambda T: [("[%d,%d]" % (a, c), (rows["s"], a, c)) for a in range(2) for c in range(3)])
        if nd1:
            one("saved_deltax", dp, pick(before, "dx"), pick(after, "dx"), T, lambda T: [("[%d]" % c, (rows["d"], c)) for c in range(3)])
        nst = 4 if scheme == "rk4" else 1
        wt = [SR.const(1)] if nst == 1 else [SR.const(1) / 6, SR.const(1) / 3, SR.const(1) / 3, SR.const(1) / 6]

        def force(name):
            return lambda el: sum((wt[q] * rowmap.elt("%s#%d" % (name, q), el[1]) for q in range(nst)), SR.const(0))
        v3 = lambda r: (lambda T: [("[%d]" % c, (rows[r], c)) for c in range(3)])
        if ns1:
            one("saved_Fa_out", df, force("Fa"), None, Tf, v3("s"))
            one("saved_Sa_out", df, force("Sa"), None, Tf, lambda T: [("[%d,%d]" % (a, c), (rows["s"], a, c)) for a in range(3) for c in range(3)])
        if nd1:
            one("saved_Fb_out", df, force("Fb"), None, Tf, v3("d"))
            one("saved_DFb_out", df, force("DFb"), None, Tf, v3("d"))
        one("saved_force_on_wall_due_to_dumbbells", df, lambda el: sum((wt[q] * common.sarr("wall#%d" % q, 1)[0] for q in range(nst)), SR.const(0)), None, Tf,
            lambda T: [("", (0,))])
        return out, structure

    seen, tried = 0, []
    for ctx, (kind, res) in sym.explore(harness, limit=400, deadline=ck.deadline):
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            import traceback
            raise Unsupported("exception on a path: %s" % "".join(traceback.format_exception(res))[-700:])
        seen += 1

        def conc(env, name):
            if not tried:
                tried.append(name)
                concrete(ck)
        for name, d in res[0]:
            ck.zero("%s: %s" % (tag, name), d, ctx, conc)
        for name, ok in res[1]:
            ck.record("%s: %s" % (tag, name), "proved" if ok else "undecided", "z3")
    if not seen:
        raise Unsupported("vacuous")


def resume(ck, every=None, start=None):
    """setups/positions.py on a backup of any length: starts from its last entry, at the frame that entry belongs to.

    Without arguments the saving interval and start and the numbers of spheres and dumbbells are arbitrary."""
    free = every is None
    tag = "resuming, any interval and start" if free else "resuming, every %d from %d" % (every, start)
    scope = "unbounded" if free else "interval %d, start %d, two spheres and two dumbbells" % (every, start)
    if free:
        every, start = SI.var("E"), SI.var("S")
    w = common.world_no_tables()
    st = w.load("settings")
    for k, v in dict(setup_number=4, input_number=1, num_frames=50, timestep=ring.literal("0.1"), save_positions_every_n_timesteps=every,
                     start_saving_after_first_n_timesteps=start).items():
        setattr(st, k, v)
    g = types.ModuleType("glob")
    g.glob = lambda pat: ["output/2601010000-s4-i1-50fr-t0p1-M1_TEMP.npz"]
    w.stubs["glob"] = g
    keep = facade.BUILTINS.get("print")

    def harness():
        facade.CREATED.clear()
        w.mods.pop("setups.positions", None)
        T = SI.var("T")
        sym.iassume(T.z() >= 1)
        if free:
            sym.iassume(z3.And(every.z() >= 1, start.z() >= 0))
            ns, nd, i = SI.var("ns"), SI.var("nd"), SI.var("i")
            sphere = sym.CTX.decide("a sphere")
            sym.iassume(z3.And(ns.z() >= 0, nd.z() >= 0, i.z() >= 0, i.z() < (ns if sphere else nd).z()))
        else:
            ns = nd = 2
        data = dict(centres=rowmap.array("C", (T, ns + nd, 3)), deltax=rowmap.array("D", (T, nd, 3)), sphere_rotations=rowmap.array("R", (T, ns, 2, 3)))

        class File:
            def __enter__(self):
                return data

            def __exit__(self, *a):
                pass
        had = w.np.__dict__.get("load")
        w.np.__dict__["load"] = lambda f, **k: File()
        facade.BUILTINS["print"] = lambda *a, **k: None
        try:
            m = w.load("setups.positions")
        finally:
            if had is None:
                del w.np.__dict__["load"]
            if keep is None:
                del facade.BUILTINS["print"]
            else:
                facade.BUILTINS["print"] = keep
        if m.checkpoint_filename == "":
            raise Unsupported("the backup was not used")
        out = []
        z = T - 1
        # the first frame saved is the least multiple of the interval not before the start: start + (-start mod interval)
        first = start + -start % every
        out.append(("start frame", c13.sr(m.checkpoint_start_from_frame) - c13.sr(first + z * every)))
        pd = m.posdata
        if free:
            for name, a, n in (("sphere centres", pd[1], ns), ("markers", pd[2], ns), ("dumbbell centres", pd[4], nd), ("dumbbell extensions", pd[5], nd)):
                c = a.shape[0]
                out.append(("number of %s" % name, SR.const(0) if sym.ientails(SI.lift(c).z() == n.z()) else c13.sr(c) - c13.sr(n)))
            at = [i]
        else:
            sphere, at = None, [0, 1]
        for k in range(3):
            for i_ in at:
                if sphere is not False:
                    out.append(("sphere centre %s[%d]" % (i_, k), SR.lift(pd[1][i_, k]) - rowmap.elt("C", (z, i_, k))))
                    for a in range(2):
                        out.append(("orientation marker %s,%d[%d]" % (i_, a, k), SR.lift(pd[2][i_, a, k]) - rowmap.elt("R", (z, i_, a, k))))
                if sphere is not True:
                    out.append(("dumbbell centre %s[%d]" % (i_, k), SR.lift(pd[4][i_, k]) - rowmap.elt("C", (z, ns + i_, k))))
                    out.append(("dumbbell extension %s[%d]" % (i_, k), SR.lift(pd[5][i_, k]) - rowmap.elt("D", (z, i_, k))))
        return out
    seen, tried = 0, []
    sym.PRODUCTS[0] = free
    try:
        found = list(sym.explore(harness, limit=50, deadline=ck.deadline))
    finally:
        sym.PRODUCTS[0] = False
    for ctx, (kind, res) in found:
        ck.paths += 1
        if kind == "dead":
            ck.dead += 1
            continue
        if kind == "raise":
            raise Unsupported("exception on a path: %r" % (res,))
        seen += 1
        if free and any(not d.is_zero() for _, d in res):
            raise Unsupported("not proved: %s" % next(name for name, d in res if not d.is_zero()))

        def conc(env, name):
            if not tried:
                tried.append(name)
                concrete(ck)
        for name, d in res:
            ck.zero("%s: %s" % (tag, name), d, ctx, conc, scope=scope)
    if not seen:
        raise Unsupported("vacuous")


def run(ck):
    ck.assume("machine floating point is treated as exact arithmetic in the obligations")
    ck.assume("a saving interval is known only by which frame numbers are multiples of it; numpy.append, numpy.savez_compressed and numpy.load keep what they are given")
    ck.assume("resuming is compared for the one-step schemes with the far-field inverse recomputed every frame; a resumed two-step run starts with an Euler step (C13)")
    ck.assume("the frame obligations assume the backup file is written as the arrays stand; the written files are compared on the real code")
    ck.under_contract("generate_frame (run_simulation.py, executed whole): saving", "setups/positions.py: checkpointing")
    for scheme in ("euler", "rk4"):
        for ns1, nd1 in ((True, True), (True, False), (False, True)) if scheme == "euler" else ((True, True),):
            for state in ("empty", "some", "resumed"):
                ck.guard("%s %s %s %s" % (scheme, ns1, nd1, state), frame, ck, scheme, ns1, nd1, state)
    if not ck.guard("resume", resume, ck):
        ck.bounds.append("resuming: intervals 1-4, saving starts 0-4, backups of any length, two spheres and two dumbbells")
        for every in (1, 2, 3, 4):
            for start in (0, 1, 2, 3, 4):
                ck.guard("resume %d %d" % (every, start), resume, ck, every, start)
    concrete(ck)
