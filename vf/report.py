"""Verdict, evidence and replay files of a check."""
import json
import os
import subprocess
import sys
import time
import traceback

from .quint import ToolError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CodeError(Exception):
    """The code under test raised on an input on which the property demands a result."""


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.viol = []
        self.known = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.clauses = {}
        self.extra = {}
        self.assumptions = []
        self.laps = {}
        self._lap = self.t0
        p = os.path.join(ROOT, "known_findings.json")
        self.findings = [f for f in json.load(open(p))["known"] if f["property"] == pid] if os.path.exists(p) else []

    @property
    def quick(self):
        return self.tier != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, budget=None):
        budget = budget or (240 if self.quick else 780)
        return budget - (time.time() - self.t0)

    def cover(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def count(self, cnt):
        for c, k in cnt.items():
            self.clauses[c] = self.clauses.get(c, 0) + k

    def lap(self, name):
        t = time.time()
        self.laps[name] = round(self.laps.get(name, 0) + t - self._lap, 1)
        self._lap = t

    def require(self, clauses, spare=0):
        """Vacuity guard: these clauses must have been evaluated (all but `spare` of them)."""
        if sum(1 for k in clauses if not self.clauses.get(k)) <= spare:
            return
        for k in clauses:
            if not self.clauses.get(k) and not self.viol:
                raise ToolError("clause %s was never evaluated" % k)

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def violation(self, clause, detail, replay=None):
        """replay: anything JSON-able that reproduces the violation."""
        for f in self.findings:
            if f["match"] == clause or (f["match"].endswith("*") and clause.startswith(f["match"][:-1])):
                if f not in self.known:
                    self.known.append(f)
                return
        self.viol.append({"clause": clause, "detail": detail, "replay": replay})

    def bad(self, bad, prefixes, describe=None):
        """Collect verdicts of a validator whose clause belongs to this property."""
        for b in bad:
            if any(b["clause"].startswith(p) for p in prefixes):
                rep = describe(b["ev"]) if describe else None
                self.violation(b["clause"], "event %d at (%d,%d): observed %.9g, specification %.9g, tolerance %.3g" % (
                    b["ev"], b["a"], b["b"], b["got"] / 2**48, b["want"] / 2**48, b["tol"] / 2**48), rep)

    def finish(self):
        ev = {
            "property": self.pid, "tier": "thorough" if not self.quick else "quick", "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["(none)"],
                "clauses_evaluated": self.clauses, "phase_seconds": self.laps, **self.extra},
            "assumptions": self.assumptions,
            "violations": len(self.viol),
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            rep = os.path.join(ROOT, "evidence", "replay_%s.json" % self.pid)
            with open(rep, "w") as f:
                json.dump(self.viol[:20], f, indent=1, default=str)
            for v in self.viol[:6]:
                print("  clause %s: %s" % (v["clause"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs %s clauses=%s" % (
            self.pid, self.states, self.transitions, self.traces, time.time() - self.t0, self.laps,
            {k: v for k, v in sorted(self.clauses.items()) if k.startswith(self.pid)}))
        return 0


def main(pid, fn):
    from . import pool
    c = Check(pid)
    try:
        fn(c)
    except CodeError as e:
        c.violation(pid + ".raises", str(e), str(e))
    except (ToolError, OSError, MemoryError, subprocess.SubprocessError):
        traceback.print_exc()
        print("ERROR property=%s: the check itself failed" % pid)
        pool.close()
        sys.stdout.flush()
        os._exit(3)
    except Exception as e:  # the implementation raised, or returned something malformed
        traceback.print_exc()
        tb = traceback.format_exc()
        c.violation(pid + ".raises", "%s: %s" % (type(e).__name__, str(e)[:300]), tb)
    pool.close()
    rc = c.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
