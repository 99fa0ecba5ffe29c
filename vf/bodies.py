"""Handing bodies to the real builder, and cutting them out of lattices."""
from . import pool, quint
from .quint import ONE
from .pool import Raised, pmap

OPTS = ["vel", "force", "mass", "vol", "vol0", "L", "stress", "F", "store", "cell", "ppc", "dens"]


def _f32(x, *shape):
    import numpy as np
    return (np.array(x, dtype=np.float64) / ONE).astype(np.float32).reshape(shape)


def _body(tr):
    import jax.numpy as jnp
    import numpy as np

    import hydraxmpm as hdx

    from .sim import fx, fxs, pad3
    t = tr[-1]
    dim = t["dim"]
    bld = hdx.SimBuilder()
    given, idx = [], []
    for b in t["bodies"]:
        n = len(b["pts"])
        o = b["opt"]
        g = {q: _f32([p[s] for p in b["pts"]], n, *shp) for q, s, shp in [
            ("position_stack", "x", (3,)), ("velocity_stack", "v", (3,)), ("force_stack", "f", (3,)), ("mass_stack", "m", ()), ("volume_stack", "vol", ()),
            ("volume0_stack", "vol0", ()), ("L_stack", "L", (3, 3)), ("stress_stack", "s", (3, 3)), ("F_stack", "F", (3, 3)), ("density_stack", "dens", ())]}
        for q in ("position_stack", "velocity_stack", "force_stack"):
            g[q] = g[q][:, :dim]
        nv = _f32(b["nv"], n, 3)[:, :dim]
        has = dict(velocity_stack=o["vel"], force_stack=o["force"], mass_stack=o["mass"], volume_stack=o["vol"], volume0_stack=o["vol0"], L_stack=o["L"],
                   stress_stack=o["stress"], F_stack=o["F"], density_stack=o["dens"])
        pos = jnp.asarray(g["position_stack"])
        if b["rigid"]:
            kw = dict(normal_stack=jnp.asarray(nv)) if b["nrm"] else {}
            idx.append(bld.add_material_points(position_stack=pos, is_rigid=True, **kw))
        else:
            kw = {q: jnp.asarray(g[q]) for q in has if has[q]}
            if o["store"]:
                kw["store_F"] = True
            if o["cell"]:
                kw["cell_size"] = b["h"] / ONE
            if o["ppc"]:
                kw["ppc"] = b["ppc"]
            idx.append(bld.add_material_points(position_stack=pos, **kw))
        given.append((b, g, nv))
    _, state = bld.build()
    evs = []
    for k, (b, g, nv) in enumerate(given):
        m = state.world.material_points[idx[k]] if idx[k] < len(state.world.material_points) else state.world.material_points[k]
        n = len(b["pts"])
        st = getattr(m, "F_store_stack", None)
        args = [fxs(pad3(g["position_stack"])), fxs(pad3(g["velocity_stack"])), fxs(pad3(g["force_stack"]))] + [
            fxs(g[q]) for q in ("mass_stack", "volume_stack", "volume0_stack", "L_stack", "stress_stack", "F_stack", "density_stack")] + [fxs(pad3(nv))]
        hd = [[0, dim, n, int(b["rigid"]), k, idx[k], int(st is not None), int(b["nrm"])], [int(b["opt"][q]) for q in OPTS], [fx(b["h"] / ONE), b["ppc"]]]
        p3 = lambda a: fxs(pad3(np.asarray(a)))  # noqa: E731
        if b["rigid"]:
            res = [p3(m.position_stack), p3(m.velocity_stack), p3(m.normal_stack), fxs(m.mass_stack)] + [[]] * 18
        else:
            res = [p3(m.position_stack), p3(m.velocity_stack), p3(m.force_stack)] + [fxs(x) for x in (
                m.mass_stack, m.volume_stack, m.volume0_stack, m.L_stack, m.stress_stack, m.F_stack)] + [[] if st is None else fxs(st)] + [fxs(x) for x in (
                    m.density_stack, m.density_ref_stack, m.pressure_stack, m.q_stack, m.KE_stack, m.eps_stack, m.eps_v_stack, m.deps_dt_stack,
                    m.shear_strain_rate_stack, m.shear_strain_stack)] + ([[], []] if st is None else [fxs(m.stored_eps_stack), fxs(m.stored_shear_strain_stack)])
        evs.append(hd + args + res + [[int(m.num_points), int(m.dim)]])
    for c in t["cuts"]:
        evs.append(_cut(c))
    return evs


def _cut(c):
    import jax
    import jax.numpy as jnp
    import numpy as np

    import hydraxmpm as hdx

    from .sdfs import log_shapes, make
    from .sim import fx, fxs, pad3
    o = c["o"]
    dim = o["dim"]
    logic, kw = make(o)
    lo, hi = _f32(c["lo"], 3)[:dim], _f32(c["hi"], 3)[:dim]
    a = dict(sdf_obj=logic, bounds_min=jnp.asarray(lo), bounds_max=jnp.asarray(hi))
    com, rot = np.asarray(kw["center_of_mass"]), np.asarray(kw["rotation"])
    if c["via"] == 0:
        a["sdf_state"] = logic.create_state(**kw)
    if c["via"] in (1, 2):
        a["center_of_mass"] = kw["center_of_mass"]
    if c["via"] == 1:
        a["rotation"] = kw["rotation"]
    if c["via"] == 3:
        com = ((lo + hi) / np.float32(2)).astype(np.float32)
    p3 = lambda x: fxs(pad3(np.asarray(x))) if len(x) else []  # noqa: E731
    same = diff = 1
    if c["mode"] == 2:
        draw = lambda k: np.asarray(hdx.generate_particles_in_sdf(mode="random", num_particles=c["num"], key=jax.random.PRNGKey(k), **a))  # noqa: E731
        x = draw(c["key"])
        same = int(np.array_equal(x, draw(c["key"])))
        diff = int(not np.array_equal(x, draw(c["key"] + 1)))
    else:
        if c["mode"] == 1:
            a["mode"] = "gauss_legendre"
        elif c["key"] % 2:
            a["mode"] = "regular"
        x = np.asarray(hdx.generate_particles_in_sdf(cell_size=c["h"] / ONE, ppc=c["ppc"], **a))
    w = [0, 0, 0]
    return [[1, dim, int(o["comp"]), len(o["shapes"]), c["mode"], c["num"], same, diff]] + log_shapes(o) + [
        fxs(pad3(com[None])), fxs(rot.reshape(-1)), w, w, [fx(np.float32(c["h"] / ONE)), c["ppc"]], fxs(pad3(lo[None])), fxs(pad3(hi[None])), p3(x)]


def body_check(c, plan, nsteps, clauses, need=()):
    """plan: list of (dimension, number of builders)."""
    from concurrent.futures import ThreadPoolExecutor
    pool.warm()
    with ThreadPoolExecutor(2) as ex:
        gens = list(ex.map(lambda a: quint.generate("gen_body", "gen_body_%d" % a[0], a[1], nsteps, c.seed * 1000 + 23, ["inv"]), plan))
    jobs = [t for g in gens for t in g]
    c.cover(states=sum(len(t) for t in jobs), transitions=sum(len(t) - 1 for t in jobs))
    c.lap("generate")
    evs, who = [], []
    for j, r in zip(jobs, pmap(_body, jobs)):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"behaviour": j[-1], "trace": r.text})
            continue
        for e in r:
            evs.append(e)
            who.append(j[-1])
    c.lap("code")
    bad, cnt = quint.validate("val_body", "val_body", evs)
    c.lap("validate")
    c.count(cnt)
    c.cover(traces=len(jobs), states=len(evs), transitions=len(evs))
    for j in jobs[:3]:
        c.sample(dict(dim=j[-1]["dim"], bodies=[dict(rigid=b["rigid"], points=len(b["pts"]), given=[q for q in OPTS if b["opt"][q]]) for b in j[-1]["bodies"]],
                      cuts=[dict(mode=q["mode"], shapes=[s["k"] for s in q["o"]["shapes"]], ppc=q["ppc"]) for q in j[-1]["cuts"]]))
    c.bad(bad, list(clauses), lambda ev: {"builder": who[ev]})
    c.require(need)
