"""Driving the real voxel objects and point clouds."""
import itertools
import os
import shutil
import tempfile

from . import pool, quint
from .quint import ONE
from .pool import Raised, pmap


def _f(l):
    import numpy as np
    return (np.array(l, dtype=np.float64) / ONE).astype(np.float32)


def _vox(tr):
    import jax.numpy as jnp
    import numpy as np

    import hydraxmpm as hdx

    from .sim import fx, fxs, pad3
    evs = []
    d = tempfile.mkdtemp(prefix="vf_vox_")
    try:
        for k, t in enumerate(tr):
            v, o, c = t["v"], t["o"], t["c"]
            data, lo, sz = _f(v["data"]).reshape(v["n"]), _f(v["lo"]), _f(v["sz"])
            name = os.path.join(d, "table%d.npz" % k)
            wide = np.float64 if k % 2 else np.float32
            hi = (lo + sz).astype(np.float32)
            np.savez(name, sdf=data.astype(wide), min=lo.astype(wide), max=hi.astype(wide))
            scale, thick = float(np.float32(v["scale"] / ONE)), float(np.float32(v["thick"] / ONE))
            kw = {}
            if v["scale"] != ONE:
                kw["scale"] = scale
            if v["thick"] != 28147:
                kw["thickness"] = thick
            obj = hdx.GridSDF(name, **kw)
            com, rot = _f(o["com"]), _f(o["rot"])
            st = obj.create_state(center_of_mass=jnp.asarray(com), rotation=jnp.asarray(rot))
            x = jnp.asarray(_f(t["pts"]))
            flat = os.path.join(d, "flat.npz")
            np.savez(flat, sdf=data[0], min=lo, max=lo + sz)
            try:
                hdx.GridSDF(flat)
                refused = 0
            except ValueError:
                refused = 1
            # a box about the object, off the lattice
            h = np.float32(t["h"] / ONE)
            from scipy.spatial.transform import Rotation
            q = np.array(list(itertools.product(*zip(lo * scale, hi * scale))))
            q = Rotation.from_quat(np.roll(rot.astype(np.float64), -1)).apply(q) + com
            a = ((np.floor(q.min(0) / h) + 0.37) * h).astype(np.float32)
            b = ((np.ceil(q.max(0) / h) - 0.37) * h).astype(np.float32)
            body = hdx.generate_particles_in_sdf(sdf_obj=obj, sdf_state=st, bounds_min=jnp.asarray(a), bounds_max=jnp.asarray(b), cell_size=float(h), ppc=1)
            fr = np.broadcast_to(np.asarray(obj.get_surface_friction_stack(st, x), dtype=np.float64), (len(x),))
            evs.append([[0, len(x), len(body), refused], v["n"], fxs(lo), fxs(hi.astype(np.float64) - lo.astype(np.float64)), [fx(scale), fx(thick) if kw.get("thickness") is not None else fx(1e-7), fx(h)],
                        fxs(data), fxs(com), fxs(rot), fxs(np.asarray(x)), fxs(obj.get_signed_distance_stack(st, x)), fxs(obj.get_normal_stack(st, x)), fxs(fr),
                        fxs(np.concatenate([np.asarray(q_) for q_ in obj.get_local_bounds()])), fxs(a), fxs(b), fxs(np.asarray(body))])
            dim = c["dim"]
            mp = hdx.MaterialPointState.create(position_stack=jnp.asarray(_f(c["xs"])[:, :dim]), volume0_stack=jnp.asarray(_f(c["vols"])), volume_stack=jnp.asarray(_f(c["vols"]) * 2))
            cl = hdx.MaterialPointCloudSDF() if c["k"] == 2 * ONE else hdx.MaterialPointCloudSDF(smooth_k=c["k"] / ONE)
            y = jnp.asarray(_f(t["cpts"])[:, :dim])
            evs.append([[1, dim, len(c["xs"]), len(y)], [c["k"]], fxs(pad3(_f(c["xs"])[:, :dim])), fxs(_f(c["vols"])), fxs(pad3(np.asarray(y))),
                        fxs(cl.get_signed_distance_stack(y, mp)), fxs(pad3(cl.get_normal_stack(y, mp)))])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return evs


def vox_check(c, n, nsteps, clauses, need=()):
    pool.warm()
    jobs = quint.generate("gen_vox", "gen_vox_main", n, nsteps, c.seed * 1000 + 37, ["inv"])
    c.cover(states=sum(len(t) for t in jobs), transitions=sum(len(t) - 1 for t in jobs))
    c.lap("generate")
    evs, who = [], []
    for j, r in zip(jobs, pmap(_vox, jobs)):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"behaviour": j, "trace": r.text})
            continue
        for k, e in enumerate(r):
            evs.append(e)
            who.append(j[k // 2])
    c.lap("code")
    bad, cnt = quint.validate("val_vox", "val_vox", evs)
    c.lap("validate")
    c.count(cnt)
    c.cover(traces=len(jobs), states=len(evs), transitions=len(evs))
    for j in jobs[:3]:
        c.sample(dict(nodes=j[0]["v"]["n"], scale=j[0]["v"]["scale"] / ONE, thick=j[0]["v"]["thick"] / ONE, cloud=len(j[0]["c"]["xs"]), blend=j[0]["c"]["k"] / ONE))
    c.bad(bad, list(clauses), lambda ev: {"state": who[ev]})
    c.require(need)
