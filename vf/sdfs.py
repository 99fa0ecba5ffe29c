"""Driving the real signed distance objects: queries and motions."""
import contextlib

from . import pool, quint
from .quint import ONE
from .pool import Raised, pmap

NAMES = ["BoxSDF", "SphereSDF", "PlaneSDF", "CapsuleSDF", "HollowCylinderSDF", "HollowCylinderSDF", "HollowCylinderSDF", "CylinderSDF", "TorusSDF", "StarSDF", "DomainSDF"]
NPAR = [3, 1, 3, 2, 3, 3, 3, 2, 2, 3]


def params(sh, dim):
    """The parameters as float32 numbers the code will see."""
    import numpy as np
    k = sh["k"]
    p = sh["p"][:6 + 2 * dim] if k == 10 else sh["p"][:NPAR[k]]
    return [float(np.float32(x / ONE)) for x in p]


def make_shape(sh, dim):
    import jax.numpy as jnp

    from hydraxmpm.sdf import sdfcollection as sc
    k, p = sh["k"], params(sh, dim)
    v = lambda l: jnp.asarray(l, dtype=jnp.float32)
    if k == 0:
        return sc.BoxSDF(v(p[:dim]))
    if k == 2:
        return sc.PlaneSDF(v(p[:dim]))
    if k in (4, 5, 6):
        return sc.HollowCylinderSDF(p[0], p[1], p[2], is_2d_ring=k != 5)
    if k == 9:
        return sc.StarSDF(int(round(p[0])), p[1], p[2])
    if k == 10:
        return sc.DomainSDF(v(p[:dim]), v(p[3:3 + dim]), frictions=p[6:6 + 2 * dim])
    return getattr(sc, NAMES[k])(*p)


def make(o):
    """Model object -> (logic, keyword arguments of its state)."""
    import jax.numpy as jnp

    from hydraxmpm.sdf import sdfcollection as sc
    dim = o["dim"]
    v = lambda l: jnp.asarray([x / ONE for x in l], dtype=jnp.float32)
    shapes = [make_shape(s, dim) for s in o["shapes"]]
    logic = sc.CompositeSDF(shapes, v(o["fr"])) if o["comp"] else shapes[0]
    kw = dict(center_of_mass=v(o["com"][:dim]), velocity=v(o["vel"][:dim]))
    if dim == 2:
        kw.update(rotation=v(o["rot"])[0], angular_velocity=v(o["ang"])[0])
    else:
        kw.update(rotation=v(o["rot"]), angular_velocity=v(o["ang"]))
    return logic, kw


def state_fields(st, dim):
    """com, rot, vel, ang as the validators read them."""
    import numpy as np

    from .sim import fxs, pad3
    one = lambda a: [float(np.asarray(a))] if dim == 2 else np.asarray(a, dtype=np.float64)
    w = one(st.angular_velocity)
    return [fxs(pad3(np.asarray(st.center_of_mass))), fxs(one(st.rotation)), fxs(pad3(np.asarray(st.velocity))), fxs(list(w) + [0, 0] if dim == 2 else w)]


def shape_fields(o):
    """kinds, parameters of each shape, friction"""
    import numpy as np

    from .sim import fx
    dim = o["dim"]
    return [[s["k"] for s in o["shapes"]]] + [
        [fx(x) for x in params(s, dim)] + ([0] if dim == 2 and s["k"] in (0, 2) else []) for s in o["shapes"]] + [[fx(np.float32(x / ONE)) for x in o["fr"]]]


def log_shapes(o):
    f = shape_fields(o)
    dim = o["dim"]
    if dim == 2:  # padding of plane vectors to three components
        for i, s in enumerate(o["shapes"]):
            if s["k"] in (0, 2):
                f[1 + i] = f[1 + i][:2] + [0]
    return f


def _sdf(tr):
    import jax.numpy as jnp
    import numpy as np

    from .sim import fx, fxs, pad3
    o = tr[0]["o"]
    dim = o["dim"]
    logic, kw = make(o)
    st = logic.create_state(**kw)
    shp = log_shapes(o)
    dt = np.float32(tr[0]["dt"] / ONE)
    evs = []
    for k, t in enumerate(tr):
        pts = np.array(t["pts"] + t["srf"] + t["spc"], dtype=np.float64)[:, :dim] / ONE
        x = jnp.asarray(pts.astype(np.float32))
        n = len(pts)
        # the surface points moved along with the model, not with the recorded object
        hdr = [dim, int(o["comp"]), len(o["shapes"]), n, len(t["srf"]) if k == 0 else 0, len(t["spc"])]
        fr = np.broadcast_to(np.asarray(logic.get_surface_friction_stack(st, x), dtype=np.float64), (n,))
        evs.append([[0] + hdr] + shp + state_fields(st, dim) + [
            fxs(pad3(np.asarray(x))), fxs(logic.get_signed_distance_stack(st, x)), fxs(pad3(logic.get_normal_stack(st, x))),
            fxs(pad3(logic.get_velocity_stack(st, x, dt))), fxs(fr)])
        if k + 1 < len(tr):
            s1 = logic.update_kinematics(st, dt)
            evs.append([[1] + hdr] + shp + state_fields(st, dim) + [[fx(dt)]] + state_fields(s1, dim))
            st = s1
    return evs


def sdf_check(c, plan, clauses, nsteps=3, need=()):
    """plan: list of (dimension, number of objects)."""
    from concurrent.futures import ThreadPoolExecutor
    pool.warm()
    with ThreadPoolExecutor(2) as ex:
        gens = list(ex.map(lambda a: quint.generate("gen_sdf", "gen_sdf_%d" % a[0], a[1], nsteps, c.seed * 1000 + 11, ["inv"]), plan))
    jobs = [t for g in gens for t in g]
    c.cover(states=sum(len(t) for t in jobs), transitions=sum(len(t) - 1 for t in jobs))
    c.lap("generate")
    res = pmap(_sdf, jobs)
    c.lap("code")
    evs, who = [], []
    for j, r in zip(jobs, res):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"behaviour": j, "trace": r.text})
            continue
        for e in r:
            evs.append(e)
            who.append(j)
    bad, cnt = quint.validate("val_sdf", "val_sdf", evs)
    c.lap("validate")
    c.count({k: n for k, n in cnt.items() if any(k.startswith(p) for p in clauses)})
    c.cover(traces=len(jobs), states=len(evs), transitions=len(evs))
    for j in jobs[:3]:
        o = j[0]["o"]
        c.sample(dict(dim=o["dim"], shapes=[NAMES[s["k"]] for s in o["shapes"]], composite=o["comp"], steps=len(j) - 1))
    c.bad(bad, list(clauses), lambda ev: {"behaviour": who[ev]})
    c.require(need)
