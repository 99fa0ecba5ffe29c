"""Running Quint: generators (ITF traces out) and validators (logs in)."""
import glob
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import numpy as np

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
ONE = 1 << 48
NONFINITE = 1 << 94
B = 1 << 96
OFF = 1 << 95


class ToolError(Exception):
    """The verification machinery itself failed (never a verdict)."""


# ------------------------------------------------------------------ numbers
def fx(x):
    """A float as a fixed-point integer (exact up to 2^-48)."""
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")) or abs(x) > 2.0 ** 44:
        return NONFINITE
    return round(Fraction(x) * ONE)


def fxs(a):
    return [fx(v) for v in np.asarray(a, dtype=np.float64).reshape(-1).tolist()]


def unfx(i):
    return i / ONE


# ---------------------------------------------------------------------- ITF
def _val(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#map" in v:
            return {_key(_val(k)): _val(x) for k, x in v["#map"]}
        if "#set" in v:
            return [_val(x) for x in v["#set"]]
        if "#tup" in v:
            return tuple(_val(x) for x in v["#tup"])
        return {k: _val(x) for k, x in v.items() if not k.startswith("#")}
    if isinstance(v, list):
        return [_val(x) for x in v]
    return v


def _key(k):
    return tuple(k) if isinstance(k, list) else k


def itf(path):
    d = json.load(open(path))
    return [{k.split("::")[-1]: v for k, v in _val(s).items()} for s in d["states"]]


class Scratch:
    """A throw-away directory holding the spec files."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vfq.")
        for f in glob.glob(os.path.join(SPEC, "*.qnt")):
            shutil.copy(f, self.dir)

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def _run(cmd, cwd, timeout):
    env = dict(os.environ)
    env.setdefault("NODE_OPTIONS", "--max-old-space-size=6000 --stack-size=8000")
    if "--stack-size" in env["NODE_OPTIONS"]:
        env["NODE_OPTIONS"] = "--max-old-space-size=6000"
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p


def generate(module, main, n, steps, seed, invariants=(), timeout=600, one_per_trace=True):
    """Run the generator; return the list of traces (each a list of states).

    A violated invariant of the *model* is a machinery error: the theorem the
    specification claims does not hold of the specification."""
    with Scratch() as d:
        cmd = ["quint", "run", "--main", main, "--max-samples", str(n), "--n-traces", str(n),
               "--max-steps", str(steps), "--seed", str(seed), "--out-itf", "t_{seq}.itf.json"]
        if invariants:
            cmd += ["--invariant", " and ".join(invariants)]
        cmd += [module + ".qnt"]
        p = _run(cmd, d, timeout)
        if p.returncode != 0:
            raise ToolError("quint run %s failed: %s %s" % (main, p.stdout[-1500:], p.stderr[-1500:]))
        files = sorted(glob.glob(os.path.join(d, "t_*.itf.json")), key=lambda f: int(f.split("_")[-1].split(".")[0]))
        return [itf(f) for f in files]


# --------------------------------------------------------------------- logs
def event(fields, chunk=240):
    """Encode one event (a list of lists of integers) as Quint big integers."""
    words = [len(fields)] + [len(f) for f in fields]
    for f in fields:
        words += f
    out = []
    for i in range(0, len(words), chunk):
        w = words[i:i + chunk]
        by = b"".join((int(x) + OFF).to_bytes(12, "little") for x in [len(w)] + w)
        out.append("0x" + by[::-1].hex())
    return "[" + ",".join(out) + "]"


def _validate_one(args):
    module, main, evs, timeout, extra = args
    with Scratch() as d:
        with open(os.path.join(d, "lg.qnt"), "w") as f:
            f.write("module lg {\n  pure val EV: List[List[int]] = [\n    %s\n  ]\n%s}\n" % (",\n    ".join(evs), extra))
        cmd = ["quint", "run", "--main", main, "--max-samples", "1", "--max-steps", str(len(evs)),
               "--seed", "1", "--out-itf", "v_{seq}.itf.json", module + ".qnt"]
        p = _run(cmd, d, timeout)
        if p.returncode != 0:
            msg = "%s %s" % (p.stdout[-1500:], p.stderr[-1500:])
            if "untime error" in msg and len(evs) == 1:
                # the specification is undefined on what the implementation did
                return {"bad": [{"ev": 0, "clause": "ANY.undefined", "a": 0, "b": 0, "got": 0, "want": 0, "tol": 0}], "cnt": {}}
            if "untime error" in msg:
                h = len(evs) // 2
                a = _validate_one((module, main, evs[:h], timeout, extra))
                b = _validate_one((module, main, evs[h:], timeout, extra))
                cnt = dict(a["cnt"] or {})
                for c, n in (b["cnt"] or {}).items():
                    cnt[c] = cnt.get(c, 0) + n
                return {"bad": list(a["bad"]) + [dict(x, ev=x["ev"] + h) for x in b["bad"]], "cnt": cnt}
            raise ToolError("quint validator %s failed: %s" % (main, msg))
        st = itf(os.path.join(d, "v_0.itf.json"))
        if len(st) != len(evs) + 1:
            raise ToolError("validator consumed %d of %d events" % (len(st) - 1, len(evs)))
        return st[-1]["out"]


def validate(module, main, events, timeout=800, jobs=5, extra="", batch=12):
    """Check recorded events against the validator spec.

    events: list of field lists.  Returns (bad, counts): bad clauses with the
    event number they belong to, and how often every clause was evaluated."""
    if not events:
        return [], {}
    enc = [event(e) for e in events]
    order = sorted(range(len(enc)), key=lambda i: -len(enc[i]))
    k = max(1, min(jobs, (len(enc) + batch - 1) // batch))
    k = max(k, (len(enc) + 79) // 80)
    parts = [order[j::k] for j in range(k)]
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        res = list(ex.map(_validate_one, [(module, main, [enc[i] for i in p], timeout, extra) for p in parts]))
    bad, cnt = [], {}
    for p, r in zip(parts, res):
        for b in r["bad"]:
            b = dict(b)
            b["ev"] = p[b["ev"]]
            bad.append(b)
        for c, n in (r["cnt"] or {}).items():
            cnt[c] = cnt.get(c, 0) + n
    bad.sort(key=lambda b: b["ev"])
    return bad, cnt
