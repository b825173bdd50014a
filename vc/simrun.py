"""Runs the repository's simulation script itself, unmodified, in a scratch directory.

User configuration (settings, particle setup, input forces) is supplied by the
harness, as a user would edit it.  Optionally the solver generate_output_FTSUOE
is replaced by a known smooth velocity field (its contract is C10's business),
and a stop can be provoked when the solver is called for a given frame.
"""
import numpy as np

# a smooth, time-dependent velocity field and linear background flow; shared by
# the run and the oracle (it stands for "the velocities found for a configuration")
MODEL = '''
import numpy as np


def lattice(p, t):
    """Rows are the box vectors at time t (x sheared along z), reduced along x."""
    L = p["L"]
    B = np.diag(L).astype(float)
    B[2, 0] = np.mod(p["rate"] * t * L[2], L[0])
    return B


def flow(p, t):
    """U, O, centre, E, accumulated O and E."""
    if p["L"] is not None:
        g = p["rate"]
        E = np.zeros((3, 3))
        E[0, 2] = E[2, 0] = g / 2
        return np.zeros(3), np.array([0, g / 2, 0]), np.zeros(3), E, np.array([0, g * t / 2, 0]), E * t
    q = 1 + .5 * np.sin(3 * t + .2)
    E = np.array([[.1, .3, -.2], [.3, .15, .25], [-.2, .25, -.25]]) * q * p["shear"]
    O = np.array([.2, -.3, .4]) * q * p["shear"]
    return np.array([.3, -.1, .2]) * q * p["shear"], O, np.array([.5, -.25, .75]) * (1 + t), E, np.zeros(3), np.zeros((3, 3))


def phase(p, x, t):
    if p["L"] is None:
        return x
    return 2 * np.pi * np.linalg.solve(lattice(p, t).T, x.T).T


def velocities(p, ss, x, ds, xb, dx, t):
    """Velocities relative to the background flow: depend on every position, extension, size and the time."""
    y, yb = phase(p, x, t), phase(p, xb, t)
    m = np.cos(y).sum(0) + .7 * np.sin(yb + .3).sum(0) + .4 * np.sin(dx).sum(0)
    s = np.sum(ss) + 2 * np.sum(ds)
    T = np.sin(5 * t + .1)
    Ua = .3 * np.sin(y[:, [1, 2, 0]] + m + T) + .05 * s * np.cos(y)
    Oa = .8 * np.cos(y[:, [2, 0, 1]] - m + 2 * T)
    Ub = .3 * np.cos(yb[:, [1, 2, 0]] - m + T) + .05 * s * np.sin(dx)
    Hb = .2 * np.sin(yb + dx[:, [2, 0, 1]] + m - T)
    return Ua, Oa, Ub, Hb


def forces(p, ss, x, ds, xb, dx, t):
    """Forces of the same configuration: any distinct known functions."""
    y, yb = phase(p, x, t), phase(p, xb, t)
    T = np.cos(4 * t)
    Fa = np.sin(2 * y) + T
    Sa = np.array([np.outer(np.cos(r), np.cos(r)) + T for r in y]).reshape(len(y), 3, 3)
    Fb = np.cos(2 * yb) - T
    Db = np.sin(dx) + T
    return Fa, Sa, Fb, Db
'''

CODE = MODEL + '''
class Stop(Exception):
    pass


def f(a):
    import contextlib, importlib, io, os, runpy, shutil, sys, tempfile
    p = a["model"]
    d = tempfile.mkdtemp(prefix="vcsim")
    os.mkdir(d + "/output")
    old = os.getcwd(), list(sys.argv), sys.stdin
    log = []

    def purge():
        for k, m in list(sys.modules.items()):
            g = getattr(m, "__file__", None) or ""
            if g.startswith(ROOT) and not k.startswith("resistance_scalars"):
                del sys.modules[k]

    def one(stop):
        purge()
        s = a["settings"]
        sys.argv = ["run_simulation.py", str(a["setup"]), str(a["input"]), repr(s["timestep"]), str(s["num_frames"])]
        sys.stdin = io.StringIO("")
        st = importlib.import_module("settings")
        st.view_graphics = False
        for k, v in s.items():
            setattr(st, k, v)
        if a["posdata"] is not None:
            tp = importlib.import_module("setups.tests.positions")
            tp.pos_setup_tests = lambda n: (tuple(np.array(z) for z in a["posdata"]), "test")
        si = importlib.import_module("setups.inputs")
        # wall-clock names of the backup files must differ between the runs only by the code's own doing
        if p is not None:
            dt = s["timestep"]

            def inputs(n, posdata, frameno, timestep, last_velocities, input_form="", skip_computation=False, grand_resistance_matrix_fte=0):
                ns, nd = len(posdata[0]), len(posdata[3])
                U, O, c, E, Ot, Et = flow(p, frameno * timestep)
                L = np.zeros(3) if p["L"] is None else np.array(p["L"])
                z = [[0, 0, 0] for _ in range(ns)]
                zb = [[0, 0, 0] for _ in range(nd)]
                return (z, z, [E for _ in range(ns)], [], zb, zb, z, z, [E for _ in range(max(ns, 1))], [], zb, zb, "model",
                        U, O, c, Ot, Et, -L / 2, L / 2, 1)
            si.input_ftsuoe = inputs
            import functions.timestepping as ts

            def solve(posdata, frameno, timestep, *rest, **kw):
                if stop is not None and frameno >= stop:
                    raise Stop()
                ss, x, rot, ds, xb, dx = [np.array(z, float) for z in posdata]
                t = frameno * timestep
                U, O, c, E, Ot, Et = flow(p, t)
                Ua, Oa, Ub, Hb = velocities(p, ss, x, ds, xb, dx, t)
                Fa, Sa, Fb, Db = forces(p, ss, x, ds, xb, dx, t)
                log.append([float(frameno), float(timestep), [np.array(z) for z in posdata]])
                Ea = np.array([E for _ in range(max(len(ss), 1))])
                return (Fa, Fa * 0, Sa, Fb, Db, Ua, Oa, Ea, Ub, Hb, np.array([0]), [0, 0, 0, 0], U, O, c, Ot, Et,
                        np.array([np.sum(Fa) + t]), np.array([0.]))
            ts.generate_output_FTSUOE = solve
        elif stop is not None:
            import functions.timestepping as ts
            orig = ts.generate_output_FTSUOE

            def solve(posdata, frameno, *rest, **kw):
                if frameno >= stop:
                    raise Stop()
                return orig(posdata, frameno, *rest, **kw)
            ts.generate_output_FTSUOE = solve
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                runpy.run_path(ROOT + "/run_simulation.py", run_name="__main__")
        except Stop:
            return False
        return True

    try:
        os.chdir(d)
        for stop in a.get("stops", []):
            if one(stop):
                break
        else:
            one(None)
        res = sorted(os.listdir(d + "/output"))
        final = [r for r in res if r.endswith(".npz") and not r.endswith("_TEMP.npz")]
        out = {"files": res, "final": len(final), "solves": len(log), "log": log if a.get("log") else []}
        if len(final) == 1:
            with np.load(d + "/output/" + final[0]) as z:
                out["saved"] = {k: np.array(z[k], float) for k in z.files}
        return out
    finally:
        os.chdir(old[0])
        sys.argv, sys.stdin = old[1], old[2]
        purge()
        shutil.rmtree(d)
'''

_ns = {}
exec(compile(MODEL, "<model>", "exec"), _ns)
lattice, flow, velocities, forces = _ns["lattice"], _ns["flow"], _ns["velocities"], _ns["forces"]


def total(p, ss, x, ds, xb, dx, t, xf=None, xbf=None):
    """Velocities including the background flow; xf, xbf: positions the background flow is taken at."""
    U, O, c, E, Ot, Et = flow(p, t)
    xf = x if xf is None else xf
    xbf = xb if xbf is None else xbf
    W = np.array([[0, -O[2], O[1]], [O[2], 0, -O[0]], [-O[1], O[0], 0]])
    A = W + E
    Ua, Oa, Ub, Hb = velocities(p, ss, x, ds, xb, dx, t)
    return Ua + U + (xf - c) @ A.T, Oa + O, Ub + U + (xbf - c) @ A.T, 2 * Hb + dx @ A.T


def step(p, scheme, first, ss, ds, state, prev, n, dt):
    """One step of the scheme: returns the new (x, xb, dx) and the mean angular velocity."""
    x, xb, dx = state
    t = n * dt
    V = lambda x, xb, dx, t: total(p, ss, x, ds, xb, dx, t)
    k1 = V(x, xb, dx, t)
    if scheme == "euler" or scheme == "ab2" and first:
        k = k1
    elif scheme == "ab2":
        k0 = V(*prev, (n - 1) * dt)
        k = [1.5 * u - .5 * v for u, v in zip(k1, k0)]
    else:
        k2 = V(x + dt / 2 * k1[0], xb + dt / 2 * k1[2], dx + dt / 2 * k1[3], t + dt / 2)
        k3 = V(x + dt / 2 * k2[0], xb + dt / 2 * k2[2], dx + dt / 2 * k2[3], t + dt / 2)
        k4 = V(x + dt * k3[0], xb + dt * k3[2], dx + dt * k3[3], t + dt)
        k = [(a + 2 * b + 2 * c + d) / 6 for a, b, c, d in zip(k1, k2, k3, k4)]
    return (x + dt * k[0], xb + dt * k[2], dx + dt * k[3]), k[1]


def example(rng, ns, nd, periodic=False):
    p = dict(L=rng.uniform(6, 9, 3) if periodic else None, rate=.7, shear=1.0)
    w = 4. if periodic else 3.
    ss = rng.choice([1., 10.], ns)
    x = rng.uniform(-w, w, (ns, 3))
    e = np.eye(3)[[0, 2]]
    rot = x[:, None, :] + ss[:, None, None] * e[None]
    ds = rng.uniform(.1, .3, nd)
    xb = rng.uniform(-w, w, (nd, 3))
    dx = rng.uniform(-1, 1, (nd, 3))
    return p, (ss, x, rot.reshape(ns, 2, 3), ds, xb, dx)


SETTINGS = dict(timestepping_scheme="euler", num_frames=4, timestep=.1, input_form="fte", invert_m_every=1, printout=0, fully_2d_problem=False,
                rk4_generate_minfinity_for_each_stage=True, explosion_protection=False, email_on_completion=False,
                extract_force_on_wall_due_to_dumbbells=False, start_saving_after_first_n_timesteps=0, save_positions_every_n_timesteps=1,
                save_forces_every_n_timesteps=1, save_forces_and_positions_to_temp_file_as_well=True, save_to_temp_file_every_n_timesteps=120,
                trace_paths=0, view_labels=False, feed_every_n_timesteps=0)


def job(p, posdata, stops=(), setup=-1, input=1, log=False, **settings):
    s = dict(SETTINGS, **settings)
    if posdata is not None and len(posdata[0]) == 0:
        s["input_form"] = settings.get("input_form", "fts")
    return dict(model=p, posdata=None if posdata is None else list(posdata), stops=list(stops), setup=setup, input=input, log=log, settings=s)
