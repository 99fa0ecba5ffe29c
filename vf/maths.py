"""Asking the real helper functions about tensors, vectors, quaternions and scalars."""
import functools

from . import pool, quint
from .pool import Raised, pmap
from .quint import ONE


@functools.lru_cache(None)
def _bundle():
    """One function that calls every helper: for single items, for a stack, for a stack of stacks."""
    import jax
    import jax.numpy as jnp

    import hydraxmpm.utils.math_helpers as m

    def one(f):
        """f applied to item i of every argument."""
        return lambda *a: jnp.stack([f(*[x[i] for x in a]) for i in range(a[0].shape[0])])

    def deep(f):
        def g(*a):
            r = f(*[x.reshape((2, x.shape[0] // 2) + x.shape[1:]) for x in a])
            return r.reshape((a[0].shape[0],) + r.shape[2:])
        return g

    def all_(A, B, F, P, V, W, Q, S, par):
        dt, k0, deg, grav, dia, rhop = [par[i] for i in range(6)]
        skB = 0.5 * (B - jnp.swapaxes(B, -1, -2))
        phi, e, rho, z, rate, num, ang = [S[:, i] for i in range(7)]
        q0 = B[:, 0, 0]
        none = jnp.zeros((0,))
        out = []

        def add(single, stack=none, dp=none):
            out.extend([single, stack, dp])

        add(one(m.get_spin_tensor)(A))
        add(one(m.get_sym_tensor)(A), m.get_sym_tensor_stack(A))
        add(one(m.get_skew_tensor)(A), m.get_skew_tensor_stack(A))
        add(one(lambda a, w: m.get_jaumann_increment(a, w, dt))(A, skB))
        add(one(m.get_double_contraction)(A, B), m.get_double_contraction_stack(A, B), deep(m.get_double_contraction)(A, B))
        add(one(m.get_pressure)(A), m.get_pressure_stack(A), deep(m.get_pressure)(A))
        add(one(m.get_dev_stress)(A), m.get_dev_stress_stack(A), deep(m.get_dev_stress)(A))
        add(one(m.get_dev_stress)(A, P), m.get_dev_stress_stack(A, P), deep(m.get_dev_stress)(A, P))
        add(one(m.get_J2)(A), m.get_J2_stack(A), deep(m.get_J2)(A))
        add(one(lambda b: m.get_J2(dev_stress=b))(B), m.get_J2_stack(None, B), deep(lambda b: m.get_J2(dev_stress=b))(B))
        add(one(m.get_q_vm)(A), m.get_q_vm_stack(A), deep(m.get_q_vm)(A))
        add(one(lambda b: m.get_q_vm(dev_stress=b))(B), m.get_q_vm_stack(None, B), deep(lambda b: m.get_q_vm(dev_stress=b))(B))
        add(one(lambda a: m.get_scalar_shear_stress(a, None, None))(A), m.get_scalar_shear_stress_stack(A))
        add(one(m.get_volumetric_strain)(A), m.get_volumetric_strain_stack(A), deep(m.get_volumetric_strain)(A))
        add(one(m.get_strain_rate_tensor)(A), m.get_strain_rate_tensor_stack(A), deep(m.get_strain_rate_tensor)(A))
        add(one(m.get_shear_strain_vm)(A), m.get_shear_strain_vm_stack(A), deep(m.get_shear_strain_vm)(A))
        add(one(lambda b: m.get_shear_strain_vm(dev_strain=b))(B), m.get_shear_strain_vm_stack(None, B))
        add(one(m.get_dev_strain)(A), m.get_dev_strain_stack(A), deep(m.get_dev_strain)(A))
        add(one(m.get_dev_strain)(A, P), m.get_dev_strain(A, P), deep(m.get_dev_strain)(A, P))
        add(one(m.get_scalar_shear_strain)(A), m.get_scalar_shear_strain_stack(A))
        add(one(m.get_KE)(rho, V), m.get_KE_stack(rho, V))
        add(one(m.get_plastic_strain)(A, B), m.get_plastic_strain_stack(A, B))
        add(one(m.get_small_strain)(F), m.get_small_strain_stack(F))
        add(one(m.phi_to_e)(phi), m.phi_to_e_stack(phi), m.phi_to_e(phi))
        add(one(m.e_to_phi)(e), m.e_to_phi_stack(e), m.e_to_phi(e))
        add(one(lambda a, p: m.get_phi_from_L(a, p, dt))(A, phi))
        add(one(lambda b: m.get_e_from_bulk_density(rhop, b))(rho))
        add(one(lambda b: m.get_phi_from_bulk_density(rhop, b))(rho), m.get_phi_from_bulk_density_stack(rhop, rho))
        add(none)   # lithostatic p and q are asked for outside: the slope is a number
        add(none)
        add(m.reconstruct_stress_from_triaxial(P, q0))
        add(one(m.quaternion_rotate)(Q, V))
        add(one(lambda a, v: m.quaternion_rotate(m.quaternion_inv(a), m.quaternion_rotate(a, v)))(Q, V))
        add(one(m.rotation_2d)(ang, V[:, :2]))
        add(one(lambda a, v: m.rotation_2d_inv(a, m.rotation_2d(a, v)))(ang, V[:, :2]))
        add(one(lambda a, w: m.integrate_quaternion(a, w, dt))(Q, W))
        add(one(lambda a, w: m.rotate_2d_update(a, w, dt))(ang, W[:, 0]))
        add(one(m.safe_inv_scalar_clamped)(num))
        add(one(jax.grad(m.safe_inv_scalar_clamped))(num), jax.vmap(jax.jacfwd(m.safe_inv_scalar_clamped))(num))
        add(one(m.inv_3x3_robust)(F))
        add(one(lambda a: m.inv_2x2_robust(a[:2, :2]))(F))
        add(one(m.safe_norm)(V), m.safe_norm(V, axis=-1))
        add(one(m.get_hencky_strain)(F), m.get_hencky_strain_stack(F), deep(m.get_hencky_strain)(F))
        pp = jnp.abs(P)
        add(one(lambda a, r: m.get_inertial_number(a, r, dia, rhop))(pp, rate), m.get_inertial_number_stack(pp, rate, dia, rhop))
        # derivatives that have to stay finite
        g = jax.vmap(jax.grad(m.safe_norm))(V)
        return out, g

    return all_, jax.jit(all_), m.precondition_from_lithostatic


def _math(a):
    import jax.numpy as jnp
    import numpy as np

    from .sim import fxs
    n, ts = a
    evs = []
    for k, t in enumerate(ts):
        f32 = lambda x, *s: (np.array(x, dtype=np.float64) / ONE).astype(np.float32).reshape(s)  # noqa: E731
        N = len(t["A"])
        A, B, F = (f32(t[q], N, 3, 3) for q in ("A", "Bm", "F"))
        P, V, W, S, par = f32(t["P"], N), f32(t["V"], N, 3), f32(t["W"], N, 3), f32(t["S"], N, 7), f32(t["par"], 6)
        Q = np.array(t["Qn"], dtype=np.float64).reshape(N, 4)
        Q = (Q / np.linalg.norm(Q, axis=1, keepdims=True)).astype(np.float32)
        args = [A, B, F, P, V, W, Q, S, par]
        eager, jitted, litho = _bundle()
        o, g = (eager if n % 3 == 0 and k == 0 else jitted)(*[jnp.asarray(x) for x in args])
        o = [np.asarray(x) for x in o]
        kw = {} if par[2] == 0 and k % 2 else {"slope_angle_deg": float(par[2])}
        p, q = litho(jnp.asarray(S[:, 2]), jnp.asarray(S[:, 3]), float(par[3]), k0=float(par[1]), **kw)
        o[3 * 28], o[3 * 29] = np.asarray(p), np.asarray(q)
        fin = all(bool(np.all(np.isfinite(x))) for x in o + [np.asarray(g)])
        evs.append([[N, int(fin)]] + [fxs(x) for x in args] + [fxs(x) for x in o])
    return evs


def math_check(c, n, clauses, need=()):
    pool.warm()
    tr = quint.generate("gen_math", "gen_math", n, 0, c.seed * 1000 + 19, ["inv"])
    jobs = [t[0] for t in tr]
    c.cover(states=len(jobs), transitions=0)
    c.lap("generate")
    k = max(1, (len(jobs) + 13) // 14)
    parts = [(i, jobs[i * k:(i + 1) * k]) for i in range((len(jobs) + k - 1) // k)]
    evs, who = [], []
    for (i, part), r in zip(parts, pmap(_math, parts)):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"inputs": part[0], "trace": r.text})
            continue
        for t, e in zip(part, r):
            evs.append(e)
            who.append(t)
    c.lap("code")
    bad, cnt = quint.validate("val_math", "val_math", evs)
    c.lap("validate")
    c.count(cnt)
    c.cover(traces=len(jobs), states=len(evs), transitions=len(evs))
    for t in jobs[:2]:
        c.sample({q: [[round(x / ONE, 4) for x in y] for y in t[q]] for q in ("A", "F")})
    c.bad(bad, list(clauses), lambda ev: {"inputs": who[ev]})
    c.require(need)
