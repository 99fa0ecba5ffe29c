"""Driving the real element tests."""
import json
import os

from . import pool, quint
from .laws import arr, create, f32, make, points, scal, silent
from .pool import Raised, pmap
from .quint import ONE


def _drive(job):
    """A generated loading history through the single-step driver, next to the law itself."""
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np

    import hydraxmpm as hdx
    from hydraxmpm.element_tests.driver import ElementTestDriver  # noqa: F401

    from .laws import logged
    from .sim import fx, fxs
    tr, no = job
    l = tr[0]["law"]
    n = len(tr[0]["st"])
    law = make(l)
    how = no % 3
    if how == 2:
        drv = ElementTestDriver(law, is_F_linear_approx=True)
        step = lambda d, m, s, L, dt: d.step(m, s, L, dt)  # noqa: E731
    elif how == 1:
        drv = ElementTestDriver(law)
        step = lambda d, m, s, L, dt: d.step(m, s, L, dt, is_F_linear_approx=True)  # noqa: E731
    else:
        drv = ElementTestDriver(law)
        step = (lambda d, m, s, L, dt: d.step(m, s, L, dt)) if no % 2 else (lambda d, m, s, L, dt: d.step(m, s, L, dt, is_F_linear_approx=False))  # noqa: E731
    if no % 5:
        step = eqx.filter_jit(step)
    S = arr([s["S"] for s in tr[0]["st"]]).reshape(-1, 3, 3)
    mp = points(arr(tr[0]["rho"]), S)
    st, mp = create(l, law, mp, tr[0]["st"])
    F0 = np.array([np.eye(3) for _ in range(n)]) + (0 if no % 4 == 0 else np.random.RandomState(no).uniform(-0.1, 0.1, (n, 3, 3)))
    mp = eqx.tree_at(lambda m: m.F_stack, mp, f32(F0))
    dt = f32(np.float32(tr[0]["dt"] / ONE))
    evs = []
    for t in tr[1:]:
        L = f32(arr(t["Ls"]).reshape(-1, 3, 3))
        with silent():
            m1, s1 = step(drv, mp, st, L, dt)
            seen = eqx.tree_at(lambda m: (m.L_stack, m.F_stack), mp, (L, m1.F_stack))
            m2, s2 = law.update(seen, st, dt)
        kept = all(np.array_equal(np.asarray(getattr(mp, q)), np.asarray(getattr(m1, q))) for q in ("position_stack", "velocity_stack", "force_stack", "volume0_stack"))
        evs.append([[0, n, how, int(kept), l["kind"]], [fx(dt)], fxs(L), fxs(mp.F_stack), fxs(m1.F_stack), fxs(mp.volume0_stack), fxs(m1.volume_stack), fxs(mp.mass_stack),
                    fxs(m1.mass_stack), fxs(m1.L_stack), fxs(m1.stress_stack), fxs(m2.stress_stack), fxs(scal(l, s1, n)[1]), fxs(scal(l, s2, n)[1]), logged(l)])
        mp, st = m1, s1
    return evs


def _triax(tr):
    import jax
    import jax.numpy as jnp
    import numpy as np

    from hydraxmpm.element_tests.driver import ElementTestDriver
    from hydraxmpm.element_tests.triaxial_test import TriaxialTest

    from .laws import logged
    from .sim import fx, fxs
    z = tr[0]
    l, t = z["law"], z["t"]
    n = len(t["rates"])
    law = make(l)
    S = arr([z["z0"]["s"]["S"]]).reshape(-1, 3, 3)
    mp = points(arr([z["z0"]["rho"]]), S)
    st, mp = create(l, law, mp, [z["z0"]["s"]])
    rates = np.array([x / ONE for x in t["rates"]], dtype=np.float32)
    dts = np.array([x / ONE for x in t["dts"]], dtype=np.float32)

    def run(stride):
        test = TriaxialTest(ElementTestDriver(law), confine=t["confine"] / ONE, axial_rate=float(rates[0]) if z["arrs"] == 0 else jnp.asarray(rates),
                            dt=float(dts[0]) if z["arrs"] < 2 else jnp.asarray(dts), is_undrained=t["mode"] == 2, is_p_constant=t["mode"] == 1,
                            num_steps=n, stride=stride, start_static=bool(t["still"]))
        with silent():
            return test.run(mp, st)
    m, s = run(t["stride"])
    fin = all(bool(np.all(np.isfinite(np.asarray(x)))) for x in jax.tree.leaves((m, s)) if np.issubdtype(np.asarray(x).dtype, np.floating))
    k = int(np.asarray(m.mass_stack).shape[0])
    a = {3: "eps_p_acc_stack", 4: "p_c_stack"}.get(l["kind"])
    every = [[], []]
    if t["stride"] > 1:
        m1, _ = run(1)
        every = [fxs(np.asarray(m1.F_stack)[t["stride"] - 1::t["stride"]]), fxs(np.asarray(m1.stress_stack)[t["stride"] - 1::t["stride"]])]
    return [[[1, l["kind"], n, t["mode"], t["stride"], int(t["still"]), k, int(fin), int("finding" in z)], logged(l), [fx(np.float32(t["confine"] / ONE)), fx(mp.volume0_stack[0]), fx(mp.mass_stack[0])],
             fxs(rates), fxs(dts), fxs(mp.stress_stack), fxs(mp.F_stack), [0], fxs(m.L_stack), fxs(m.F_stack), fxs(m.stress_stack), fxs(m.volume_stack), fxs(m.mass_stack),
             fxs(getattr(s, a)) if a else []] + every]


def _call(job):
    return _drive(job[1:]) if job[0] == "d" else _triax(job[1])


def elem_check(c, ndrive, plan, clauses, need=()):
    """plan: tests per law."""
    from concurrent.futures import ThreadPoolExecutor
    pool.warm()
    with ThreadPoolExecutor(4) as ex:
        d = ex.submit(quint.generate, "gen_law", "gen_law_all", ndrive, 4, c.seed * 1000 + 31, ["inv"])
        gens = list(ex.map(lambda k: quint.generate("gen_elem", "gen_elem_%d" % k, plan[k], 12 if k in (0, 3) else 1, c.seed * 1000 + 29, ["inv"]), range(5)))
        d = d.result()
    jobs = [("t", t) for g in gens for t in g] + [("d", t, i) for i, t in enumerate(d)]
    cyc = json.load(open(os.path.join(os.path.dirname(__file__), "newton_cycle.json")))
    jobs.append(("t", [dict(cyc, finding=1)]))
    c.cover(states=sum(len(j[1]) for j in jobs), transitions=sum(len(j[1]) - 1 for j in jobs))
    c.lap("generate")
    evs, who = [], []
    for j, r in zip(jobs, pmap(_call, jobs)):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"behaviour": j[1][0], "trace": r.text})
            continue
        for e in r:
            evs.append(e)
            who.append(j[1][0])
    c.lap("code")
    bad, cnt = quint.validate("val_elem", "val_elem", evs)
    c.lap("validate")
    c.count(cnt)
    c.cover(traces=len(jobs), states=len(evs), transitions=len(evs))
    for j in jobs[:3]:
        c.sample(dict(law=j[1][0]["law"]["kind"], mode=j[1][0]["t"]["mode"], stride=j[1][0]["t"]["stride"], steps=len(j[1][0]["t"]["rates"]), static=j[1][0]["t"]["still"]))
    c.bad(bad, list(clauses), lambda ev: {"behaviour": who[ev]})
    c.require(need)
