"""Client for vc/real_server.py: call the repository's real code."""
import json
import os
import select
import subprocess
import tempfile
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


class RealError(Exception):
    """The real code raised."""
    def __init__(self, ans):
        super().__init__(ans["err"])
        self.ans = ans
        self.type = ans["type"]
        self.inrepo = ans["inrepo"]


class RealMissing(Exception):
    """The harness could not even reach the function (renamed, moved...)."""


class RealTimeout(Exception):
    pass


def enc(x):
    if isinstance(x, np.ndarray):
        k = x.dtype.kind
        return {"__nd__": x.tolist(), "shape": list(x.shape), "k": "f" if k == "O" else k}
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, tuple):
        return {"__t__": [enc(y) for y in x]}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    return x


def dec(x):
    if isinstance(x, dict):
        if "__nd__" in x:
            dt = {"f": float, "i": int, "b": bool, "u": int, "U": str}.get(x.get("k", "f"), object)
            return np.array(x["__nd__"], dtype=dt).reshape(x["shape"])
        if "__t__" in x:
            return tuple(dec(y) for y in x["__t__"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(y) for y in x]
    return x


class Real:
    busy = False
    def __init__(self, jit=True):
        self.jit = jit
        self.p = None
        self.calls = 0
        self.tmp = None

    def start(self):
        env = dict(os.environ)
        env.update(MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        if self.jit:
            if self.tmp is None:
                self.tmp = tempfile.TemporaryDirectory(prefix="vcnumba")
            env["NUMBA_CACHE_DIR"] = self.tmp.name
            env["NUMBA_NUM_THREADS"] = "1"
        else:
            env["NUMBA_DISABLE_JIT"] = "1"
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([PY, os.path.join(HERE, "real_server.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        self.buf = b""

    def call(self, code, args, timeout=120):
        self.busy = True
        try:
            return self._call(code, args, timeout)
        finally:
            self.busy = False

    def _call(self, code, args, timeout):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.calls += 1
        self.p.stdin.write((json.dumps({"code": code, "args": enc(args)}) + "\n").encode())
        self.p.stdin.flush()
        import time
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                raise RealTimeout("no answer in %ss" % timeout)
            r, _, _ = select.select([fd], [], [], left)
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    self.stop()
                    raise RealMissing("real code process ended")
                self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        ans = json.loads(line)
        if "err" in ans:
            if ans["type"] in ("ImportError", "ModuleNotFoundError") or not ans["inrepo"]:
                raise RealMissing(ans["err"] + "\n" + ans["tb"])
            raise RealError(ans)
        return dec(ans["ok"])

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None
        if self.tmp is not None:
            self.tmp.cleanup()
            self.tmp = None
