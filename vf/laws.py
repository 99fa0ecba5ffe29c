"""Driving the real constitutive laws: loading histories, initial states, time steps."""
import contextlib
import io

from . import pool, quint
from .quint import ONE
from .pool import Raised, pmap

KIND = ["LinearElasticLaw", "NewtonFluid", "MuI_LC", "DruckerPrager", "ModifiedCamClay"]
BIG = 1 << 60


def params(l, array=True):
    import jax.numpy as jnp
    p = [x / ONE for x in l["p"]]
    names = [["E", "nu"], ["K", "viscosity", "beta"], ["mu_s", "mu_d", "I_0", "d_p", "K", "rho_p", "alpha", "p_min_calc"],
             ["K", "nu", "mu_1", "mu_2", "c0", "mu_1_hat", "H", "rho_0"],
             ["nu", "M", "lam", "kap", "N", "p_ref", "K_min", "K_max", "p_min_calc", "rho_p"]][l["kind"]]
    d = dict(zip(names, p))
    if l["kind"] == 4:
        for k in ("K_min", "K_max"):
            if d[k] == 0:
                d.pop(k)
    return {k: (jnp.float32(v) if array else v) for k, v in d.items()}


def make(l, array=True):
    import hydraxmpm as hdx
    return getattr(hdx, KIND[l["kind"]])(**params(l, array and l["kind"] != 1))  # NewtonFluid takes floats only


def logged(l):
    """The parameters as the code sees them (float32)."""
    import numpy as np

    from .sim import fx
    return [fx(np.float32(x / ONE)) for x in l["p"]]


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def arr(rows):
    import numpy as np
    return np.array(rows, dtype=np.float64) / ONE


def f32(a):
    import jax.numpy as jnp
    import numpy as np
    return jnp.asarray(np.asarray(a, dtype=np.float32))


def points(rho, S, vel=None, dim=3, grown=1.0):
    """Points of (initial) density rho; grown: ratio of current and initial volume."""
    import hydraxmpm as hdx
    import numpy as np
    n = len(rho)
    vol0 = np.full(n, 0.5)
    mass = np.asarray(rho, dtype=np.float32) * np.float32(0.5)
    return hdx.MaterialPointState.create(position_stack=f32(np.arange(n * dim).reshape(n, dim)), mass_stack=f32(mass), volume_stack=f32(vol0 * grown),
                                         volume0_stack=f32(vol0), stress_stack=f32(S), velocity_stack=None if vel is None else f32(np.asarray(vel)[:, :dim]))


def create(l, law, mp, z):
    """Law state of the generator's state list z for the points mp (whose stress is already z's)."""
    import equinox as eqx
    import numpy as np
    a = arr([s["a"] for s in z])
    k = l["kind"]
    with silent():
        if k == 0:
            return law.create_state(mp), mp
        if k in (1, 2):
            st = law.create_state_from_density(density_stack=f32(a))
            return eqx.tree_at(lambda s: s.density_ref_stack, st, f32(a)), mp
        if k == 3:
            return law.create_state(stress_stack=mp.stress_stack), mp
        st, S, _ = law.create_state_from_ocr(p_stack=f32([np.trace(x) / 3 for x in arr([s["S"] for s in z]).reshape(-1, 3, 3)]),
                                             ocr_stack=f32(a / [np.trace(x) / 3 for x in arr([s["S"] for s in z]).reshape(-1, 3, 3)]))
        # the history starts from the generator's stress (rotated ones are not triaxial)
        return eqx.tree_at(lambda s: (s.p_c_stack, s.stress_ref_stack), st, (f32(a), mp.stress_stack)), mp


def scal(l, st, n):
    """(eps_e, scalar, p0) of a law state."""
    import numpy as np
    z9, z1 = np.zeros((n, 9)), np.zeros(n)
    k = l["kind"]
    if k in (1, 2):
        return z9, np.asarray(st.density_ref_stack), z1
    if k == 3:
        return np.asarray(st.eps_e_stack), np.asarray(st.eps_p_acc_stack), np.asarray(st.p_0_stack)
    if k == 4:
        return z9, np.asarray(st.p_c_stack), z1
    return z9, z1, z1


_J = {}


def _upd(law, mp, st, dt, jit=True):
    import equinox as eqx
    if "u" not in _J:
        _J["u"] = eqx.filter_jit(lambda law, mp, st, dt: law.update(mp, st, dt))
    return _J["u"](law, mp, st, dt) if jit else law.update(mp, st, dt)


def changed(m0, m1, s0, s1, l):
    """Bit mask of fields that must not have changed: 1 something of the points besides the stress, 2 a constant of the law state."""
    import numpy as np
    bad = 0
    for k in ("position_stack", "velocity_stack", "mass_stack", "force_stack", "volume_stack", "volume0_stack", "L_stack", "F_stack"):
        if not np.array_equal(np.asarray(getattr(m0, k)), np.asarray(getattr(m1, k))):
            bad |= 1
    for k in {0: ["stress_ref_stack"], 1: ["density_ref_stack"], 2: ["density_ref_stack"], 3: ["p_0_stack"], 4: ["stress_ref_stack"]}[l["kind"]]:
        if not np.array_equal(np.asarray(getattr(s0, k)), np.asarray(getattr(s1, k))):
            bad |= 2
    return bad


def run_history(tr, jit=True, rot=None):
    """Apply the generated history; list of per-step dicts of logged fields."""
    import equinox as eqx
    import numpy as np

    from .sim import fx, fxs
    l = tr[0]["law"]
    n = len(tr[0]["st"])
    law = make(l, jit)
    S = arr([s["S"] for s in tr[0]["st"]]).reshape(-1, 3, 3)
    R = np.eye(3) if rot is None else rot
    mp = points(arr(tr[0]["rho"]), np.einsum("ij,njk,lk->nil", R, S, R))
    st, mp = create(l, law, mp, tr[0]["st"])
    # the initial volume has nothing to do with the response
    mp = eqx.tree_at(lambda m: m.volume0_stack, mp, mp.volume0_stack * f32([1.0, 1.5, 0.625, 0.875][tr[0]["seed"] // 5 % 4]))
    dt = np.float32(tr[0]["dt"] / ONE)
    steps = []
    for t in tr[1:]:
        L = np.einsum("ij,njk,lk->nil", R, arr(t["Ls"]).reshape(-1, 3, 3), R)
        rho = arr(t["rho"])
        vol = np.asarray(mp.mass_stack, dtype=np.float64) / rho
        mp = eqx.tree_at(lambda m: (m.L_stack, m.volume_stack), mp, (f32(L), f32(vol)))
        e0, a0, p0 = scal(l, st, n)
        m1, s1 = _upd(law, mp, st, f32(dt) if jit else float(dt), jit)
        e1, a1, _ = scal(l, s1, n)
        seen = np.asarray(mp.mass_stack, dtype=np.float64) / np.asarray(mp.volume_stack, dtype=np.float64)
        bad = changed(mp, m1, st, s1, l)
        steps.append(dict(rho=fxs(seen), L=fxs(mp.L_stack), S0=fxs(mp.stress_stack), S1=fxs(m1.stress_stack), e0=fxs(e0), e1=fxs(e1),
                          a0=fxs(a0), a1=fxs(a1), p0=fxs(p0), other=[bad] * n))
        mp, st = m1, s1
    return l, fx(dt), n, steps


def _hist(job):
    tr, jit, rotate = job
    l, dt, n, steps = run_history(tr, jit)
    ev = [[[0, l["kind"], dt, n, len(steps)], logged(l)] + [x for s in steps for x in
          (s["rho"], s["L"], s["S0"], s["S1"], s["e0"], s["e1"], s["a0"], s["a1"], s["p0"], s["other"])]]
    if rotate:
        import numpy as np

        from .sim import fxs
        q = np.random.RandomState(tr[0]["seed"] % (2 ** 31)).normal(size=4)
        w, x, y, z = q / np.linalg.norm(q)
        R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                      [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                      [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
        _, _, _, s2 = run_history(tr, jit, R)
        ev.append([[3, l["kind"], dt, n, len(steps)], logged(l), fxs(R)] + [x for a, b in zip(steps, s2) for x in (a["S1"], b["S1"], a["a1"], b["a1"])])
    return ev


def _init(tr):
    """Initial state event and critical time step event."""
    import equinox as eqx
    import numpy as np

    import hydraxmpm as hdx
    from .sim import fx, fxs
    l, z = tr[0]["law"], tr[0]["ini"]
    k, mode = l["kind"], z["mode"]
    n = len(z["p"])
    law = make(l, False)
    p, q, ocr, rho = (arr(z[x]) for x in ("p", "q", "ocr", "rho"))
    S = arr(z["S"]).reshape(-1, 3, 3)
    vel = arr(z["vel"])
    with silent():
        if k == 4:
            if mode == 0:
                st, S, rho = law.create_state_from_ocr(p_stack=f32(p), ocr_stack=f32(ocr), q_stack=f32(q))
            elif mode == 1:
                st, rho = law.create_state_from_stress(p_stack=f32(p), q_stack=f32(q))
                S = st.stress_ref_stack
            elif mode == 2:
                st, v = law.create_state_from_density(p_stack=f32(p), density_stack=f32(rho))
                S = st.stress_ref_stack
                rho = law.rho_p / np.asarray(v)
            else:
                S = np.array([np.eye(3) * x for x in p])
                vsl = law.N * (law.p_ref / p) ** law.lam
                rho = law.rho_p / vsl
                st = law.create_state(points(rho, S))
            a = np.asarray(st.p_c_stack)
            if not np.array_equal(np.asarray(S), np.asarray(st.stress_ref_stack)) and mode != 3:
                raise AssertionError("reference stress and returned stress differ")
        elif k in (1, 2):
            mp = points(rho, S)
            if mode == 3:
                # the reference is the initial configuration, whatever happened since
                st = law.create_state(points(rho, S, grown=[1.0, 1.25, 0.75][tr[0]["seed"] % 3]))
            elif mode == 1:
                st = law.create_state_from_density(density_stack=f32(rho))
            else:
                st = law.create_state_from_density(density_stack=f32(rho), pressure_stack=f32(p))
            a = np.asarray(st.density_ref_stack)
        elif k == 3:
            st = law.create_state(stress_stack=f32(S))
            a = np.asarray(st.p_0_stack)
            rho = np.full(n, 2.0 * l["p"][7] / ONE)
        else:
            st = law.create_state(points(rho, S))
            a = np.zeros(n)
    mp = points(rho, S, vel, z["dim"])
    m1, s1 = law.update(mp, st, 0.01)
    a1 = scal(l, s1, n)[1]
    ev = [[[1, k, 0, n, 1], logged(l), [mode], fxs(f32(p)), fxs(f32(q)), fxs(f32(ocr)), fxs(f32(arr(z["rho"]))), fxs(S), fxs(rho), fxs(a), fxs(m1.stress_stack), fxs(a1)] +
          ([fxs(st.stress_ref_stack)] if k == 0 else [])]
    if hasattr(law, "get_dt_crit"):
        h, al = z["h"] / ONE, z["alpha"] / ONE
        # the density counts as it is now, dense or loose
        mp = eqx.tree_at(lambda m: m.volume_stack, mp, mp.volume_stack * f32(np.roll([1.0, 0.75, 2.5], tr[0]["seed"])[:n]))
        r = law.get_dt_crit(mp, h, al)
        d = np.asarray(mp.mass_stack, dtype=np.float64) / np.asarray(mp.volume_stack, dtype=np.float64)
        sp = np.linalg.norm(np.asarray(mp.velocity_stack, dtype=np.float64), axis=1)
        ev.append([[2, k, 0, n, 1], logged(l), [fx(al), fx(h), fx(float(r))], fxs(d), fxs(sp)])
    return ev


def _call(job):
    return _hist(job[1:]) if job[0] == "h" else _init(job[1])


def law_check(c, plan, clauses, nsteps=6, need=(), rotate=0, extra=()):
    """plan: list of (generator main, n); mains starting with gen_init_ give initial states.
    rotate: every rotate-th history is also run rotated."""
    from concurrent.futures import ThreadPoolExecutor
    pool.warm()

    def gen(a):
        if a[0].startswith("gen_init"):
            return quint.generate("gen_init", a[0], a[1], 1, c.seed * 1000 + 5, ["inv"])
        return quint.generate("gen_law", a[0], a[1], nsteps, c.seed * 1000 + 3, ["inv"])
    with ThreadPoolExecutor(4) as ex:
        gens = list(ex.map(gen, plan))
    jobs = []
    for (name, _), trs in zip(plan, gens):
        for i, tr in enumerate(trs):
            c.cover(states=len(tr), transitions=len(tr) - 1)
            jobs.append(("i", tr) if name.startswith("gen_init") else ("h", tr, i % 6 != 5, bool(rotate) and i % rotate == 0))
    c.lap("generate")
    res = pmap(_call, jobs)
    c.lap("code")
    evs, who = [], []
    for j, r in zip(jobs, res):
        law = dict(kind=KIND[j[1][0]["law"]["kind"]], p=[x / ONE for x in j[1][0]["law"]["p"]])
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"law": law, "behaviour": j[1], "trace": r.text})
            continue
        for e in r:
            evs.append(e)
            who.append((law, j[1]))
    bad, cnt = quint.validate("val_law", "val_law", evs)
    c.lap("validate")
    c.count({k: n for k, n in cnt.items() if any(k.startswith(p) for p in clauses)})
    c.cover(traces=len(jobs), states=sum(e[0][3] * e[0][4] for e in evs), transitions=sum(e[0][3] * e[0][4] for e in evs))
    for w in who[:3]:
        c.sample(dict(law=w[0], points=len(w[1][0].get("st", [])), steps=len(w[1]) - 1))
    c.bad(bad, list(clauses) + ["ANY."], lambda ev: {"law": who[ev][0], "behaviour": who[ev][1]})
    c.require(need)
