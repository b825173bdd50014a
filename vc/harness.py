"""Obligations, verdicts and evidence for one check."""
import json
import os
import random
import signal
import sys
import time
import traceback
import numpy as np
from . import ring, sym, real
from .ring import SR, GENS, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")


class Check:
    def __init__(self, pid, level="proof"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.ob = []                # (name, status, backend, seconds, scope)
        self.functions = {}
        self.assumptions = []
        self.viol = []
        self.known = []
        self.notes = []
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.real = real.Real()
        self.paths = 0
        self.dead = 0
        self.dropped = 0
        self.bounds = []
        self.covers = 0
        self.failed = []            # obligations whose two sides differ at a point of their path
        try:
            kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        except FileNotFoundError:
            kf = []
        self.kf = {k["key"]: k for k in kf if k["property"] == pid and k.get("status") == "known"}
        self.deadline = self.t0 + (600 if self.tier == "quick" else 840)

    quick = property(lambda self: self.tier != "thorough")

    # ---- recording ---------------------------------------------------------
    def note(self, s):
        self.notes.append(s)
        print("note: " + s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def under_contract(self, *names):
        for n in names:
            self.functions.setdefault(n, 0)

    def record(self, name, status, backend, secs=0.0, scope="unbounded", detail=""):
        self.ob.append((name, status, backend, secs, scope, detail))

    def counts(self):
        d = {"proved": 0, "undecided": 0, "refuted": 0, "bounded": 0}
        for n, s, b, t, sc, _ in self.ob:
            if s == "proved" and sc != "unbounded":
                d["bounded"] += 1
            else:
                d[s] += 1
        return d

    # ---- concrete evaluations ----------------------------------------------
    def evaluated(self, key, sample=None):
        """One evaluation of the property on the real code."""
        self.evals += 1
        self.distinct.add(key)
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    # ---- symbolic obligations ------------------------------------------------
    def zero(self, name, expr, ctx, concretise=None, scope="unbounded"):
        """Obligation: expr == 0 on the path ctx.

        concretise(env) -> True when the real code shows the violation."""
        t = time.time()
        e = SR.lift(expr)
        if e is None:
            raise Unsupported("obligation %s is not a number" % name)
        if ctx is not None and ctx.subst and e.t:
            e = ring._subs(e, ctx.subst, ctx.user.setdefault(("memo", len(ctx.subst)), {}))
        if e.is_zero():
            self.record(name, "proved", "ring", time.time() - t, scope)
            return True
        st, env = sym.sample_path(ctx, e.free_gens(), self.rng, draw=getattr(self, "draw", None)) if ctx is not None else \
            ("sat", {g: self.rng.uniform(0.5, 2) for g in e.free_gens()})
        if st == "unsat":
            self.dropped += 1       # the path cannot happen: not an obligation
            return True
        if st == "unknown":
            self.record(name, "undecided", "z3", time.time() - t, scope, "no witness for the path")
            return False
        try:
            v = e.eval(env)
        except Exception as ex:
            self.record(name, "undecided", "ring", time.time() - t, scope, "evaluation: %s" % ex)
            return False
        if type(v).__name__ == "mpc":
            self.record(name, "undecided", "ring", time.time() - t, scope, "evaluation: complex value")
            return False
        if abs(v) < 1e-15:
            self.record(name, "undecided", "ring", time.time() - t, scope, "normal form non-zero but value ~0")
            return False
        if abs(v) > 1e-9:
            self.failed.append(name)
        self.record(name, "refuted", "ring", time.time() - t, scope,
                    "difference %.3e at %s" % (float(v), {GENS[g].name: float(x) for g, x in env.items()}))
        if concretise is not None:
            try:
                concretise(env, name)
            except Exception as ex:
                self.note("%s: could not replay: %s" % (name, str(ex)[:200]))
        return False

    def entail(self, name, ctx, claim, concretise=None, scope="unbounded"):
        """Obligation: the facts of the path entail claim (a z3 formula over reals)."""
        t = time.time()
        r = sym.entails(ctx, claim)
        if r:
            self.record(name, "proved", "z3", time.time() - t, scope)
            return True
        self.record(name, "undecided" if r is None else "refuted", "z3", time.time() - t, scope)
        if r is False and concretise is not None:
            concretise(None, name)
        return False

    def timed(self, fn, args):
        """fn(*args), cut off when the time of the deductive layer is used up."""
        def late(*_):
            if not self.real.busy and not self.judging:
                raise sym.PathLimit("time limit")
        old = signal.signal(signal.SIGALRM, late)
        # a loop that splits for ever, or algebra that grows, must not take the time of the runs on the real code
        signal.setitimer(signal.ITIMER_REAL, max(2., min(self.t0 + (480 if self.quick else 660) - time.time(), 300 if self.quick else 500)), 2.)
        try:
            return fn(*args)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def guard(self, what, fn, *args):
        """Run one part of the deductive layer; when it cannot be carried out the
        part is undecided and the run on the real code decides."""
        try:
            self.timed(fn, args)
            return True
        except (Unsupported, sym.PathLimit, sym.Infeasible) as e:
            why = str(e)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        except (real.RealMissing, real.RealTimeout) as e:
            why = "real code not reached: %s" % str(e)[:300]
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            why = "%s: %s at %s" % (type(e).__name__, e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
        self.note("deductive layer not available (%s): %s" % (what, why[:400]))
        self.record(what, "undecided", "engine", detail=why[:400])
        return False

    # ---- verdicts ------------------------------------------------------------
    judging = False

    def violation(self, *a, **k):
        self.judging = True
        try:
            self._violation(*a, **k)
        finally:
            self.judging = False

    def _violation(self, what, replay, key=None, has_input=True):
        if key is not None and key in self.kf:
            if key not in [k for k, _ in self.known]:
                self.known.append((key, self.kf[key]["what"]))
            return
        sig = (what, key)
        if any(v[0] == what for v in self.viol) or len(self.viol) >= 5:
            self.viol.append((what, None, has_input))
            return
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len([v for v in self.viol if v[1]])))
        body = {"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier}
        body.update(replay)
        json.dump(real.enc(body), open(path, "w"), indent=1, default=str)
        self.viol.append((what, path, has_input))

    def finish(self):
        self.real.stop()
        c = self.counts()
        if self.failed and not self.viol and not self.known:
            self.violation("obligation failed: %s" % self.failed[0],
                           {"obligations": [{"name": n, "detail": d} for n, s, b, t, sc, d in self.ob if s == "refuted"][:20],
                            "explanation": "the two sides of the obligation differ at the values given, on a path of the current source; "
                                           "no input to the real code was found that shows it"}, has_input=False)
        by = {}
        for n, s, b, t, sc, _ in self.ob:
            k = by.setdefault(b, {"discharged": 0, "seconds": 0.0})
            if s == "proved":
                k["discharged"] += 1
            k["seconds"] = round(k["seconds"] + t, 4)
        groups = {}
        for n, s, b, t, sc, _ in self.ob:
            g = groups.setdefault(n.split("[")[0], [0, 0, set()])
            g[0] += 1
            g[1] += (s == "proved")
            g[2].add(sc)
        undec = [{"name": n, "status": s, "detail": d} for n, s, b, t, sc, d in self.ob if s != "proved"]
        total = len([1 for o in self.ob if o[4] == "unbounded"])
        disch = len([1 for o in self.ob if o[4] == "unbounded" and o[1] == "proved"])
        cov = {
            "obligations": total,
            "discharged": disch,
            "bounded_obligations": len(self.ob) - total,
            "bounded_discharged": len([1 for o in self.ob if o[4] != "unbounded" and o[1] == "proved"]),
            "obligation_groups": {k: {"generated": v[0], "discharged": v[1], "scope": sorted(v[2])} for k, v in groups.items()},
            "back_ends": by,
            "not_discharged": undec[:40],
            "paths_explored": self.paths,
            "paths_infeasible": self.dead,
            "obligations_dropped_on_infeasible_paths": self.dropped,
            "functions_under_contract": sorted(self.functions),
            "checker_cmd": "python3-vt run.py %s" % self.pid,
            "trusted_base": ["vc/ring.py normal form", "vc/facade.py meaning of numpy names", "vc/loader.py translation",
                             "CPython", "z3 (path feasibility, index arithmetic)"],
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.distinct),
            "rule": "each evaluation runs the real code under the repository's Python and compares it with an independent oracle; "
                    "distinct counts different (configuration class, input) keys",
            "samples": self.samples,
            "bounds": self.bounds,
            "z3": {"calls": sym.STATS["z3_calls"], "seconds": round(sym.STATS["z3_time"], 3)},
            "notes": self.notes[:40],
        }
        if self.level == "other":
            cov["explanation"] = ("bounded symbolic verification of the translated source: %d obligations within the bounds listed, for all real "
                                  "values of positions, sizes and other reals, of which %d discharged (and %d of %d obligations without a bound), "
                                  "plus %d evaluations of the real code against an independent oracle" % (
                                      cov["bounded_obligations"], cov["bounded_discharged"], disch, total, self.evals))
        ev = {"property": self.pid, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 3),
              "assumptions": self.assumptions, "violations": len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1, default=str)
        for k, w in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        print("%s: obligations %d (unbounded) discharged %d; bounded %d/%d; undecided %d refuted %d; "
              "real-code evaluations %d; paths %d; %.1fs" % (
                  self.pid, total, disch, cov["bounded_discharged"], cov["bounded_obligations"],
                  c["undecided"], c["refuted"], self.evals, self.paths, time.time() - self.t0))
        for u in undec[:10]:
            print("  not discharged: %s: %s (%s)" % (u["status"], u["name"], u["detail"][:160]))
        if self.viol:
            seen = False
            for what, path, has in self.viol:
                if path is None:
                    continue
                print("  %s" % what)
                print("VIOLATION property=%s replay=%s%s" % (self.pid, path, "" if has else " no-failing-input-found"))
            return 1
        if not self.ob and not self.evals:
            print("error: no obligations and no evaluations")
            return 3
        return 0


def main(pid, run, level="proof"):
    ck = Check(pid, level)
    try:
        run(ck)
        return ck.finish()
    except Exception:
        traceback.print_exc()
        ck.real.stop()
        if ck.viol:
            return ck.finish()
        return 3
