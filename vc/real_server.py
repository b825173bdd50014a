"""Runs the repository's real code (started with the repository's own Python).

Reads one JSON request per line on stdin, answers one JSON line on fd 3 (the
saved stdout).  Requests: {"code": source defining f(args), "args": ...}.
"""
import io
import json
import os
import sys
import traceback

out = os.fdopen(os.dup(1), "w")
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
repo = os.environ.get("VERIF_REPO", "/repo")
root = os.path.join(repo, "stokesian_dynamics")
sys.path.insert(0, root)
sys.argv = ["run_simulation.py"]
os.chdir(root)
import numpy as np  # noqa: E402
np.seterr(all="ignore")
import warnings  # noqa: E402
warnings.simplefilter("ignore")


def enc(x):
    if isinstance(x, np.ndarray):
        return {"__nd__": x.tolist(), "shape": list(x.shape), "k": x.dtype.kind}
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if hasattr(x, "toarray"):
        return enc(np.asarray(x.toarray()))
    if isinstance(x, tuple):
        return {"__t__": [enc(y) for y in x]}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return {"__repr__": repr(x)[:200]}


def dec(x):
    if isinstance(x, dict):
        if "__nd__" in x:
            dt = {"f": float, "i": int, "b": bool, "u": int, "O": float, "U": str}[x.get("k", "f")]
            return np.array(x["__nd__"], dtype=dt).reshape(x["shape"])
        if "__t__" in x:
            return tuple(dec(y) for y in x["__t__"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(y) for y in x]
    return x


cache = {}
for line in sys.stdin:
    req = json.loads(line)
    try:
        key = req["code"]
        ns = cache.get(key)
        if ns is None:
            ns = {"np": np, "ROOT": root, "REPO": repo, "__name__": "verif_snippet"}
            exec(compile(key, "<snippet>", "exec"), ns)
            cache[key] = ns
        r = ns["f"](dec(req["args"]))
        ans = {"ok": enc(r)}
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [f.filename for f in tb]
        inrepo = any(w.startswith(repo) for w in where)
        ans = {"err": "%s: %s" % (type(e).__name__, e), "type": type(e).__name__,
               "tb": traceback.format_exc()[-1500:], "inrepo": inrepo,
               "top": where[-1] if where else ""}
    out.write(json.dumps(ans) + "\n")
    out.flush()
