"""Histories of stepping, saving, loading and reopening, run on the real code.

Files live in a scratch directory below /tmp; the workers run as an
unprivileged user and deletions outside the scratch directory are recorded
instead of carried out."""
import contextlib
import glob
import hashlib
import io
import json
import os
import shutil
import tempfile

from . import pool, quint
from .quint import ONE
from .pool import Raised, pmap

DTC = [1.0, 0.5, 1.5]
JUMPS = [0, 100000, 1000000, 65536, 10000, 1]
T0 = [0.0, 1.5, 100.0]


class Guard:
    """Deletions are carried out below `root` only; others are recorded."""

    NAMES = [(shutil, "rmtree"), (os, "remove"), (os, "unlink"), (os, "rmdir"), (os, "rename"), (os, "replace"), (os, "removedirs"), (shutil, "move")]

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.escaped = []
        self.depth = 0

    def ok(self, *paths):
        for p in paths:
            q = os.path.realpath(os.fspath(p))
            if not q.startswith(self.root + os.sep):
                self.escaped.append(q)
                return False
        return True

    def __enter__(self):
        self.orig = [getattr(m, n) for m, n in self.NAMES]
        for (m, n), f in zip(self.NAMES, self.orig):
            def w(*a, _f=f, _n=n, **k):
                if self.depth or "dir_fd" in k:
                    return _f(*a, **k)
                two = _n in ("rename", "replace", "move")
                if not self.ok(*a[:2 if two else 1]):
                    return None
                self.depth += 1
                try:
                    return _f(*a, **k)
                finally:
                    self.depth -= 1
            setattr(m, n, w)
        return self

    def __exit__(self, *a):
        for (m, n), f in zip(self.NAMES, self.orig):
            setattr(m, n, f)


def _zero(tree):
    import jax
    import jax.numpy as jnp

    def z(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, float)):
            return type(x)(0)
        return jnp.zeros_like(x) if hasattr(x, "dtype") else x
    return jax.tree_util.tree_map(z, tree)


class Run:
    """One simulation with its files."""

    def __init__(self, scn, k0, t0, d0, base):
        import jax
        import numpy as np
        self.scn, self.k0, self.t0, self.d0 = scn, k0, t0, d0
        self.base = base
        self.dt = [float(np.float32(scn["dt"] / ONE * x)) for x in DTC]
        self.dirs = [os.path.join(base, d) for d in ("out", "out/sub", "out2")]
        os.makedirs(os.path.join(base, "out3"))
        self.outside = [os.path.join(base, x) for x in ("keep.txt", "script.py", "out3/state_00000.eqx", "../above.txt")]
        for f in self.outside:
            with open(f, "w") as h:
                h.write("x")
        self.ids, self.table, self.lens = {}, [], None
        self.ws, self.steps = [], set()
        self.solver, self.state = self.build()
        self.blank = self.build()
        self.writer = None
        self.metas = 0
        self.where = {}
        self.nfile = {}
        solver = self.solver

        def loop(st, n):
            return jax.lax.fori_loop(0, n, lambda i, s: solver(s), st)

        def loopsave(st, n, every):
            def body(i, s):
                s = solver(s)
                jax.lax.cond(s.step % every == 0, lambda z: jax.debug.callback(self.record, z), lambda z: None, s)
                return s
            return jax.lax.fori_loop(0, n, body, st)
        self.jloop, self.jsave = jax.jit(loop), jax.jit(loopsave)
        self.jstep = jax.jit(lambda st: solver(st))
        self.inter = []

    def build(self, jump=0):
        from . import sim
        solver, state, _ = sim.build(self.scn, dt=self.dt[self.d0] * ONE, varied=True, time=self.t0, step=self.k0 + jump)
        return solver, state

    def content(self, state):
        """Number of the content: equal numbers, equal states bit for bit."""
        import jax
        import numpy as np
        from .sim import fx, fxs
        import equinox as eqx
        hd = [int(state.step), fx(np.float32(state.time)), fx(np.float32(state.dt))]
        rest = eqx.tree_at(lambda s: (s.time, s.step, s.dt), state, (0, 0, 0))
        lv = [np.asarray(x) for x in jax.tree_util.tree_leaves((rest.world, rest.mechanics)) if hasattr(x, "dtype") or isinstance(x, (int, float))]
        lv = [x.astype(np.float32) if x.dtype.kind == "f" else x for x in lv]
        key = hashlib.sha256(repr(hd).encode() + b"".join(repr((x.shape, x.dtype.kind)).encode() + x.tobytes() for x in lv)).hexdigest()
        if key not in self.ids:
            self.ids[key] = len(self.table)
            self.table.append(hd + [v for x in lv for v in fxs(x)])
            lens = [int(x.size) for x in lv]
            if self.lens is None:
                self.lens = lens
        return self.ids[key]

    @staticmethod
    def sid(solver):
        import jax
        import numpy as np
        return [(np.asarray(x).shape, np.asarray(x, dtype=np.float64).tobytes()) for x in jax.tree_util.tree_leaves(solver) if hasattr(x, "dtype") or isinstance(x, (int, float))]

    def snapshot(self, d):
        return {f: (os.stat(f).st_mtime_ns, os.stat(f).st_size, hashlib.sha256(open(f, "rb").read()).digest()) for f in glob.glob(os.path.join(self.dirs[d], "*")) if os.path.isfile(f)}

    def save(self, w, state, **kw):
        """Save, remembering which files that wrote."""
        d = self.ws[w][0]
        k = int(state.step)
        for f in glob.glob(os.path.join(self.dirs[d], "*")):
            if os.path.isfile(f):
                os.utime(f, (1, 1))
        a = self.snapshot(d)
        self.ws[w][1].save_step(state, **kw)
        b = self.snapshot(d)
        self.nfile[(d, k)] = [f for f in b if a.get(f) != b[f]]
        self.steps.add(k)

    def record(self, state):
        self.inter += [int(state.step), self.content(state)]
        self.save(self.writer, state, verbose=False)

    def load(self, d, k, current=False):
        from hydraxmpm.common.sim_io import load_simulation
        sk = (self.solver, self.state) if current else (_zero(self.blank[0]), _zero(self.blank[1]))
        return load_simulation(self.dirs[d], sk[0], sk[1], k)

    def sweep(self):
        out = []
        for d in range(3):
            for k in sorted(self.steps | {self.k0 + 1}):
                try:
                    so, st = self.load(d, k)
                    out += [d, k, 0, self.content(st), int(self.sid(so) == self.sid(self.solver))]
                except Exception:
                    out += [d, k, 1, 0, 0]
        return out

    def op(self, o):
        """Apply one operation: (content after, solver ok, meta ok)."""
        import equinox as eqx
        import jax
        import jax.numpy as jnp
        import hydraxmpm as hdx
        k, a, b, c = o["k"], o["a"], o["b"], o["c"]
        sok = mok = 1
        if k == 0:
            for _ in range(a):
                self.state = self.solver(self.state)
        elif k == 1:
            for _ in range(a):
                self.state = self.jstep(self.state)
        elif k == 2:
            self.state = self.jloop(self.state, a)
        elif k == 3:
            self.writer = c
            self.state = self.jsave(self.state, a, b)
            jax.block_until_ready(self.state)
            jax.effects_barrier()
        elif k == 4:
            self.state = eqx.tree_at(lambda s: s.dt, self.state, self.dt[a])
        elif k == 5:
            out = os.path.relpath(self.dirs[a], self.base)
            ow = bool(b)
            if c == 0:
                w = hdx.SimIO(output_dir=self.dirs[a], overwrite=ow)
            elif c == 1:
                w = hdx.SimIO(output_dir=out, relative_dir=os.path.join(self.base, "script.py"), overwrite=ow)
            else:
                w = hdx.SimIO(out, overwrite=ow)
            self.ws.append((a, w))
        elif k == 6:
            self.save(a, self.state)
        elif k == 7:
            self.metas += 1
            info = {"description": "run %d" % self.metas, "number": self.metas} if self.metas % 3 else None
            self.ws[a][1].save_solver(self.solver, **({} if info is None else {"meta_info": info}))
            got = [json.load(open(f)) for f in glob.glob(os.path.join(self.dirs[self.ws[a][0]], "*.json"))]
            mok = int(any(all(g.get(x) == y for x, y in (info or {}).items()) and g.get("type") == type(self.solver).__name__ for g in got))
        elif k == 8:
            so, st = self.load(a, b, bool(c))
            sok = int(self.sid(so) == self.sid(self.solver))
            self.state = st
        elif k == 9:
            self.state = self.build(JUMPS[a])[1]
        elif k == 10:
            for f in self.nfile[(a, b)]:
                n = os.path.getsize(f)
                m = [n - 1, n // 2, n // 4, n * 3 // 4, 0][c]
                with open(f, "r+b") as h:
                    h.truncate(m)
        return sok, mok


def _run(job):
    scn, tr, root = job
    import numpy as np
    from .sim import fx, quiet
    base = tempfile.mkdtemp(dir=root)
    top = base
    base = os.path.join(base, "w", "x")
    os.makedirs(base)
    cwd = os.getcwd()
    os.chdir(base)
    seed = tr[0]["seed"]
    t0 = T0[seed % 3]
    d0 = tr[0]["d0"]
    k0 = tr[0]["sys"]["k0"]
    try:
        with quiet(), contextlib.redirect_stdout(io.StringIO()), Guard(top) as g:
            r = Run(scn, k0, t0, d0, base)
            cur = r.content(r.state)
            ops = []
            for t in tr[1:]:
                o = t["last"]
                r.inter = []
                res, err, sok, mok = 0, "", 1, 1
                try:
                    sok, mok = r.op(o)
                    cur = r.content(r.state)
                except Exception as e:
                    res, err = 1, "%s: %s" % (type(e).__name__, str(e)[:300])
                sw = r.sweep() if o["k"] in (3, 5, 6, 7, 10) else []
                left = [int(os.path.exists(f)) for f in r.outside] + [int(not g.escaped)]
                inter = [x for q in sorted(zip(r.inter[::2], r.inter[1::2])) for x in q]
                ops += [[o["k"], o["a"], o["b"], o["c"], res, cur, sok, mok], inter, sw, left]
        return [[k0, fx(np.float32(t0)), len(tr) - 1, len(r.table), d0], r.lens, [fx(x) for x in r.dt]] + r.table + ops
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def run_check(c, main, n, nsteps, clauses, profiles, need=()):
    """n histories of nsteps operations, on scenarios of the given profiles."""
    from .steps import scenarios
    pool.DROP = True
    root = tempfile.mkdtemp(prefix="vfrun.", dir="/tmp")
    os.chown(root, pool.NOBODY, pool.NOBODY)
    try:
        per = -(-n // len(profiles))
        scn = scenarios(c, [(p, per) for p in profiles])
        trs = quint.generate("gen_run", main, n, nsteps, c.seed * 1000 + 23, ["inv"])
        for tr in trs:
            c.cover(states=len(tr), transitions=len(tr) - 1)
        c.lap("generate")
        jobs = [(s, t, root) for s, t in zip([scn[i % len(profiles) * per + i // len(profiles)] for i in range(n)], trs)]
        res = pmap(_run, jobs)
        c.lap("code")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    evs, who = [], []
    for j, r in zip(jobs, res):
        what = {"scenario": j[0], "operations": [t["last"] for t in j[1][1:]], "first": j[1][0]}
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], dict(what, trace=r.text))
            continue
        evs.append(r)
        who.append(what)
    bad, cnt = quint.validate("val_run", "val_run", evs, batch=4)
    c.lap("validate")
    c.count({k: v for k, v in cnt.items() if any(k.startswith(p) for p in clauses)})
    c.cover(traces=len(evs), states=sum(e[0][3] for e in evs), transitions=sum(e[0][2] for e in evs))
    for w in who[:2]:
        c.sample(dict(operations=[list(o.values()) for o in w["operations"]]))
    c.bad(bad, list(clauses) + ["ANY."], lambda ev: who[ev])
    c.require(need)
