"""Driving the real solver: build a simulation through SimBuilder, run steps,
record what is observable through the public Force hooks."""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import contextlib
import hashlib
import io
import warnings

warnings.filterwarnings("ignore")

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import hydraxmpm as hdx
from hydraxmpm.forces.force import Force

from . import sdfs
from .quint import ONE, fx, fxs

assert os.path.abspath(hdx.__file__).startswith("/repo/"), hdx.__file__

KERNELS = {1: "linear", 2: "quadratic", 3: "cubic"}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class Rec(Force):
    """A Force that only stores the grids it sees in its own force-state slot."""

    slot: int = eqx.field(static=True)

    def _put(self, mechanics, key, sim_cache):
        fs = list(mechanics.forces)
        d = dict(fs[self.slot] or {})
        d[key] = [
            (g.mass_stack, g.moment_stack, g.force_stack, g.moment_nt_stack) for g in sim_cache.grids
        ]
        fs[self.slot] = d
        return eqx.tree_at(lambda m: m.forces, mechanics, tuple(fs), is_leaf=lambda x: x is None)

    def apply_grid_forces(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        return world, self._put(mechanics, "forces", sim_cache), sim_cache

    def apply_grid_moments(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        return world, self._put(mechanics, "moments", sim_cache), sim_cache


def instrument(solver, state):
    """Add a recorder before and after all other forces."""
    n = len(state.mechanics.forces)
    solver = eqx.tree_at(
        lambda s: s.forces, solver, (Rec(slot=n),) + tuple(solver.forces) + (Rec(slot=n + 1),)
    )
    state = with_forces(state, tuple(state.mechanics.forces) + (None, None))
    return solver, state


def with_forces(state, forces):
    return eqx.tree_at(lambda s: s.mechanics.forces, state, forces, is_leaf=lambda x: x is None)


@eqx.filter_jit
def _jit(solver, state):
    return solver(state)


def step(solver, state, jit=True):
    """One step of an instrumented solver -> (new state, (before, after) grid records)."""
    new = _jit(solver, state) if jit else solver(state)
    fs = list(new.mechanics.forces)
    rec = fs[-2], fs[-1]
    return with_forces(new, tuple(fs[:-2]) + (None, None)), rec


# ---------------------------------------------------------------- scenarios
def arr(rows, dim=None):
    a = np.array(rows, dtype=np.float64) / ONE
    return a if dim is None else a[:, :dim]


def body_arrays(b, dim):
    pts = b["pts"]
    return dict(
        x=arr([p["x"] for p in pts], dim), v=arr([p["v"] for p in pts], dim),
        m=arr([p["m"] for p in pts]), vol=arr([p["vol"] for p in pts]), vol0=arr([p["vol0"] for p in pts]),
        S=arr([p["S"] for p in pts]).reshape(-1, 3, 3), F=arr([p["F"] for p in pts]).reshape(-1, 3, 3),
        Fs=arr([p["Fs"] for p in pts]).reshape(-1, 3, 3), C=arr([p["C"] for p in pts]).reshape(-1, 3, 3))


def f32(a):
    return jnp.asarray(np.asarray(a, dtype=np.float32))


def solver_params(s):
    p = {"alpha": s["alpha"] / ONE}
    if s["scheme"] == 0:
        return "usl", p
    p.update(use_dynamic_alpha=s["dynA"], alpha_support_min=s["smin"] / ONE, alpha_support_max=s["smax"] / ONE,
             beta_min=s["bmin"] / ONE, beta_max=s["bmax"] / ONE, cfl_limit=s["cfl"] / ONE, use_mls_update=s["scheme"] == 1)
    return "usl_aflip", p


def grid_args(s, g):
    h = (s["h1"] if g else s["h"]) / ONE
    dim = s["dim"]
    org = [s["org"][i] / ONE - g * s["shift"][i] / ONE for i in range(dim)]
    end = [org[i] + (-(-(s["cells"][i] + 3) * s["h"] // s["h1"]) if g else s["cells"][i]) * h for i in range(dim)]
    return dict(origin=tuple(org), end=tuple(end), cell_size=h, padding=s["pad"])


def varied_law(s, j, a):
    """A law other than linear elasticity (kind by seed), its state and the stress it starts from."""
    E = s["E"] / ONE
    rho = a["m"] / a["vol"]
    n = len(rho)
    p0 = E / 20
    k = (s["seed"] // 7 + j) % 5
    if k == 0:
        law = hdx.LinearElasticLaw(E=E, nu=0.2, requires_F_reset=bool(s["seed"] % 2))
        return law, None, a["S"]
    if k == 1:
        law = hdx.NewtonFluid(K=E, viscosity=E * s["dt"] / ONE / 4, beta=7.0)
        return law, law.create_state_from_density(density_stack=f32(rho / 1.001)), np.zeros_like(a["S"])
    if k == 2:
        law = hdx.MuI_LC(mu_s=0.4, mu_d=0.7, I_0=0.3, d_p=0.01, K=E, rho_p=1.5 * float(rho.max()), alpha=0.01)
        return law, law.create_state_from_density(density_stack=f32(rho / 1.01)), np.zeros_like(a["S"])
    S = np.tile(np.eye(3) * p0, (n, 1, 1))
    if k == 3:
        law = hdx.DruckerPrager(K=E, nu=0.3, mu_1=0.5, mu_2=0.5, c0=p0 / 10, mu_1_hat=0.1, H=E / 10, rho_0=0.5 * float(rho.min()))
        return law, law.create_state(stress_stack=f32(S)), S
    law = hdx.ModifiedCamClay(nu=0.2, M=1.2, lam=0.2, kap=0.02, N=2.5, p_ref=p0, p_min_calc=p0 / 1000, rho_p=1.1 * float(rho.min()))
    st, S, _ = law.create_state_from_ocr(p_stack=f32(np.full(n, p0)), ocr_stack=f32(np.full(n, 1.2)))
    return law, st, np.asarray(S)


def build(s, bodies=None, dt=None, only=None, varied=False, soiled=False, **start):
    """Scenario -> (solver, state, meta).

    bodies: subset of body indices to include (None: all).  Registration order
    follows s["ord"]: bit 0 laws, 1 couplings, 2 bodies reversed, 3 unused
    grid, law and body registered first; every third one is built body by body with
    default arguments."""
    dim = s["dim"]
    b = hdx.SimBuilder()
    dummy = (s["ord"] // 8) % 2
    if dummy:
        b.add_grid(origin=(0.0,) * dim, end=(1.0,) * dim, cell_size=0.5, padding=1)
        b.add_constitutive_law(law=hdx.LinearElasticLaw(E=7.0, nu=0.1))
        b.add_material_points(position_stack=f32(np.full((2, dim), 0.4)), mass_stack=f32([3.0, 5.0]))
    gs = [b.add_grid(**grid_args(s, g)) for g in range(s["ng"])]
    idx = list(range(len(s["bodies"]))) if bodies is None else list(bodies)
    P, L, info, vl, cpl = {}, {}, {}, {}, {}

    def points(j):
        bd = s["bodies"][j]
        a = body_arrays(bd, dim)
        if varied:
            vl[j] = varied_law(s, j, a)
            a["S"] = vl[j][2]
        P[j] = b.add_material_points(
            position_stack=f32(a["x"]), velocity_stack=f32(a["v"]), mass_stack=f32(a["m"]), volume_stack=f32(a["vol"]),
            volume0_stack=f32(a["vol0"]), stress_stack=f32(a["S"]), F_stack=f32(a["F"]), store_F=bd["store"])

    def law(j):
        k = s["bodies"][j]["law"]
        E, nu, reset = s["E"] / ONE * (1 + k), s["nu"] / ONE, (s["seed"] + k) % 3 == 0
        if varied:
            kw = {} if vl[j][1] is None else dict(law_state=vl[j][1])
            L[j] = b.add_constitutive_law(law=vl[j][0], **kw)
            info[j] = (1.0, 0.0, False)
            return
        L[j] = b.add_constitutive_law(law=hdx.LinearElasticLaw(E=E, nu=nu, requires_F_reset=reset))
        info[j] = (np.float64(np.float32(E)), np.float64(np.float32(nu)), reset)

    def couple(j, latest=False):
        """latest: leave out what was registered last, and the usual kernel."""
        bd = s["bodies"][j]
        kw = dict(p_idx=P[j], g_idx=gs[bd["g"]], c_idx=L[j], shapefunction=KERNELS[bd["k"]])
        if latest:
            del kw["p_idx"], kw["c_idx"]
            if bd["g"] == s["ng"] - 1:
                del kw["g_idx"]
            if KERNELS[bd["k"]] == "cubic":
                del kw["shapefunction"]
        cpl[j] = b.couple(**kw)

    inter = (s["seed"] // 4) % 3 == 0
    aside = inter and (s["seed"] // 24) % 2
    if inter:
        # one body after the other, behind a law nobody uses and a rigid body nothing touches
        if (s["seed"] // 12) % 2:
            b.add_constitutive_law(law=hdx.LinearElasticLaw(E=3.0, nu=0.25))
        if aside:
            b.couple(p_idx=b.add_material_points(position_stack=f32(np.full((2, dim), 0.25) + grid_args(s, 0)["origin"]), is_rigid=True), g_idx=gs[0])
        for j in (idx[::-1] if (s["ord"] // 4) % 2 else idx):
            for f in ((points, law) if s["ord"] % 2 else (law, points) if not varied else (points, law)):
                f(j)
            couple(j, True)
    else:
        for j in (idx[::-1] if (s["ord"] // 4) % 2 else idx):
            points(j)
        for j in (idx[::-1] if s["ord"] % 2 else idx):
            law(j)
        for j in (idx[::-1] if (s["ord"] // 2) % 2 else idx):
            couple(j)
    for o in s["objs"]:
        logic, kw = sdfs.make(o)
        b.add_sdf_object(sdf_logic=logic, **kw)
    cols, contact = [], [0] * (s["ng"] + dummy)

    def collider(i):
        c = s["cols"][i]
        gl = [gs[g] for g in range(s["ng"]) if (c["gm"] >> g) & 1]
        kw = {} if len(gl) == s["ng"] and not dummy else dict(g_idx_list=gl)
        if c["o"] != len(s["objs"]) - 1 or s["seed"] % 2:
            kw["sdf_idx"] = c["o"]
        b.add_sdf_collider(friction=c["fr"] / ONE, **kw)
        cols.append([c["o"], fx(np.float32(c["fr"] / ONE)), sum(1 << g for g in gl)])
        for g in gl:
            contact[g] = 1
    if s["cols"]:
        collider(0)
    frc = []
    nf = len(s["forces"])
    fid = {}
    for i, f in enumerate(s["forces"]):
        gl = [gs[g] for g in range(s["ng"]) if (f["gm"] >> g) & 1]
        pl = [P[j] for j in idx if (f["pm"] >> j) & 1]
        full = f["gm"] == 2 ** s["ng"] - 1 and f["pm"] == 2 ** len(s["bodies"]) - 1
        kw = {} if full and not dummy and not aside else dict(g_idx_list=gl, p_idx_list=pl)
        if f["kind"] == 1:
            fid[i] = b.add_gravity(gravity=f32([x / ONE for x in f["vec"][:dim]]), is_apply_on_grid=f["onGrid"], **kw)
        else:
            fid[i] = b.add_damping(alpha=f["vec"][0] / ONE, is_apply_on_grid=f["onGrid"], **kw)
        if (s["fsel"] >> i) & 1:
            frc.append([f["kind"], int(f["onGrid"])] + list(f["vec"]) + [sum(1 << g for g in gl), sum(1 << p for p in pl)])
    for i in range(1, len(s["cols"])):
        collider(i)
    scheme, par = solver_params(s)
    sel = [j for j in idx if (s["bsel"] >> j) & 1]
    kw = {}
    if s["fsel"] != 2 ** nf - 1:
        kw["f_idx_list"] = [fid[i] for i in range(nf) if (s["fsel"] >> i) & 1]
    if len(sel) != len(idx):
        kw["b_idx_list"] = sorted(cpl[j] for j in sel)
        whole = kw["b_idx_list"]
    else:
        whole = list(range(len(idx) + aside))
    # a second solver over every coupling, registered before or after and never called
    spare = [None, "before", None, "after"][s["seed"] % 4] if dummy else None
    slot = {j: whole.index(cpl[j]) for j in sel}
    other = {}
    if spare == "before":
        b.set_solver(scheme="usl_aflip", alpha=0.25)
        slot = {j: n + len(idx) + aside for j, n in slot.items()}
        other = {j: cpl[j] for j in idx}
    which = b.set_solver(scheme=scheme, **par, **kw)
    if spare == "after":
        b.set_solver(scheme="usl_aflip", alpha=0.25)
        other = {j: cpl[j] + len(whole) for j in idx}
    solver, state = b.build(dt=(s["dt"] if dt is None else dt) / ONE, **start)
    if spare:
        solver = solver[which]
    # an idle body's solver memory is the other solver's
    idle = {j: other[j] for j in idx if j not in slot and j in other}
    sol = list(state.mechanics.solvers)
    for j, n in list(idle.items()) + (list(slot.items()) if s["scheme"] != 0 else []):
        sol[n] = eqx.tree_at(lambda q: q.Bp_stack, sol[n], f32(body_arrays(s["bodies"][j], dim)["C"]))
    state = eqx.tree_at(lambda q: q.mechanics.solvers, state, tuple(sol))
    byp = sorted(idx, key=lambda j: P[j])
    meta = dict(s=s, forces=frc, ng=s["ng"] + dummy, bodies=[
        dict(j=j, p=P[j], g=gs[s["bodies"][j]["g"]], k=s["bodies"][j]["k"], slot=slot.get(j), idle=idle.get(j), law=info[j]) for j in byp],
        contact=contact, cols=cols, objs=s["objs"], nforces=len(state.mechanics.forces), laws={L[j] for j in sel},
        pushed={p for i, f in enumerate(s["forces"]) if (s["fsel"] >> i) & 1 and not f["onGrid"] for p in [P[j] for j in idx if (f["pm"] >> j) & 1]})
    if soiled:
        # left over from earlier steps: must not matter for bodies that move, and stay for the others
        mps = [eqx.tree_at(lambda q: (q.force_stack, q.L_stack), m, (0.5 * m.velocity_stack + 0.25, 0.125 * jnp.ones_like(m.L_stack) + m.mass_stack[:, None, None])) if hasattr(m, "force_stack") else m
               for m in state.world.material_points]
        state = eqx.tree_at(lambda q: q.world.material_points, state, tuple(mps))
    return solver, state, meta


# ------------------------------------------------------------------ logging
def pad3(a):
    a = np.asarray(a, dtype=np.float64)
    return a if a.shape[-1] == 3 else np.concatenate([a, np.zeros(a.shape[:-1] + (3 - a.shape[-1],))], axis=-1)


def points_fields(mp, C, n):
    eye = np.tile(np.eye(3), (n, 1, 1))
    Fs = mp.F_store_stack if mp.F_store_stack is not None else eye
    return [
        fxs(pad3(mp.position_stack)), fxs(pad3(mp.velocity_stack)), fxs(pad3(mp.force_stack)),
        fxs(mp.mass_stack), fxs(mp.volume_stack), fxs(mp.volume0_stack), fxs(mp.stress_stack),
        fxs(mp.F_stack), fxs(Fs), fxs(C)]


def digest(tree):
    """Number of the content of a tree: equal numbers, equal values."""
    lv = [np.asarray(x) for x in jax.tree_util.tree_leaves(tree) if hasattr(x, "dtype") or isinstance(x, (int, float))]
    lv = [x.astype(np.float32) if x.dtype.kind == "f" else x.astype(np.int64) for x in lv]
    return int.from_bytes(hashlib.sha256(b"".join(repr(x.shape).encode() + x.tobytes() for x in lv)).digest()[:6], "big")


def bystanders(meta, st):
    """What a step must leave alone: bodies, laws and solver memory that are not
    part of the solver, and the settings of the forces."""
    mine = {bd["p"] for bd in meta["bodies"] if bd["slot"] is not None}
    slots = {bd["slot"] for bd in meta["bodies"] if bd["slot"] is not None}
    free = lambda mp: [x for n, x in sorted(vars(mp).items()) if n != "force_stack"]
    pushed = meta["pushed"]
    m = st.mechanics
    return [digest([free(mp) for p, mp in enumerate(st.world.material_points) if p not in mine]),
            digest([getattr(mp, "force_stack", None) for p, mp in enumerate(st.world.material_points) if p not in mine and p not in pushed]),
            digest([q for n, q in enumerate(m.solvers) if n not in slots]),
            digest(m.forces[:meta["nforces"]]),
            digest([q for n, q in enumerate(m.constitutive_laws) if n not in meta["laws"]]),
            digest(st.dt)]


def step_event(solver, meta, s0, s1, rec):
    """Fields of val_step's event for one step s0 -> s1."""
    s = meta["s"]
    dim = s["dim"]
    ng = meta["ng"]
    cut = 1e-12 if s["scheme"] == 0 else 1e-7
    hdr = [dim, s["scheme"], fx(np.float32(float(s0.dt))), s["alpha"], int(s["dynA"] and s["scheme"] != 0), s["smin"], s["smax"], s["bmin"], s["bmax"], s["cfl"],
           fx(np.float32(cut)), ng, len(meta["bodies"]), fx(float(s0.time)), fx(float(s1.time)), int(s0.step), int(s1.step), meta["bodies"][0]["p"], s.get("vf", 0)] + list(s.get("A", [0] * 9)) + list(s.get("fall", [0] * 3))
    f = [hdr, [x for fr in meta["forces"] for x in fr]]
    pre, post = rec
    for g in range(ng):
        dom = solver.grid_domains[g]
        A = [np.asarray(x, dtype=np.float64) for x in (pre["forces"][g][0], pre["forces"][g][1], pre["forces"][g][2], post["forces"][g][2],
                                   pre["moments"][g][3], post["moments"][g][3])]
        with np.errstate(all="ignore"):
            nz = np.zeros(A[0].shape[0], bool)
            for x in A:
                nz |= (x.reshape(x.shape[0], -1) != 0).any(axis=1)
        ids = np.nonzero(nz)[0]
        f.append([fx(o) for o in dom.origin] + ([0] if dim == 2 else []) + [fx(dom.cell_size)] + list(dom.grid_size) + ([1] if dim == 2 else []) + [int(meta["contact"][g])])
        f.append([int(i) for i in ids])
        f.append(fxs(A[0][ids]))
        f += [fxs(pad3(x[ids])) if len(ids) else [] for x in A[1:]]
    for bd in meta["bodies"]:
        a, b = s0.world.material_points[bd["p"]], s1.world.material_points[bd["p"]]
        np_ = a.position_stack.shape[0]
        sel = bd["slot"] is not None
        if bd.get("idle") is not None:
            Ca, Cb = s0.mechanics.solvers[bd["idle"]].Bp_stack, s1.mechanics.solvers[bd["idle"]].Bp_stack
        elif s["scheme"] == 0 or not sel:
            Ca = Cb = np.zeros((np_, 3, 3))
        else:
            Ca, Cb = s0.mechanics.solvers[bd["slot"]].Bp_stack, s1.mechanics.solvers[bd["slot"]].Bp_stack
        law = bd.get("law")
        f.append([bd["g"], bd["k"], np_, int(bool(law[2])), int(a.F_store_stack is not None), int(bd.get("lin", True)),
                  fx(law[0] * law[1] / ((1 + law[1]) * (1 - 2 * law[1]))), fx(law[0] / (2 * (1 + law[1]))), int(sel)])
        f += points_fields(a, Ca, np_) + points_fields(b, Cb, np_) + [fxs(b.L_stack)]
    f.append([len(meta["objs"])] + [x for c in meta["cols"] for x in c])
    for o, q0, q1 in zip(meta["objs"], s0.world.sdfs, s1.world.sdfs):
        f += [[dim, int(o["comp"]), len(o["shapes"])]] + sdfs.log_shapes(o) + sdfs.state_fields(q0, dim) + sdfs.state_fields(q1, dim)
    f.append(bystanders(meta, s0) + bystanders(meta, s1))
    return f


def run(s, nsteps, jit=True, **kw):
    """Scenario -> list of step events."""
    with quiet():
        solver, state, meta = build(s, soiled=True, **kw)
        solver, state = instrument(solver, state)
        evs = []
        for _ in range(nsteps):
            new, rec = step(solver, state, jit)
            evs.append(step_event(solver, meta, state, new, rec))
            state = new
            if any((np.asarray(getattr(m, "volume_stack", 1.0)) <= 0).any() for m in new.world.material_points):
                break  # turned inside out: the scenario ends here
    return evs


def run_states(s, nsteps, jit=True, bodies=None):
    """Scenario -> {body index: (number of points, point fields after nsteps)}."""
    with quiet():
        solver, state, meta = build(s, bodies=bodies)
        for _ in range(nsteps):
            state = _jit(solver, state) if jit else solver(state)
        out = {}
        for bd in meta["bodies"]:
            mp = state.world.material_points[bd["p"]]
            n = mp.position_stack.shape[0]
            C = np.zeros((n, 3, 3)) if s["scheme"] == 0 or bd["slot"] is None else state.mechanics.solvers[bd["slot"]].Bp_stack
            out[bd["j"]] = (n, points_fields(mp, C, n))
    return out
