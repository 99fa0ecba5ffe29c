"""Driving the real grids and the mapping between points and nodes."""
from . import pool, quint
from .quint import ONE
from .pool import Raised, pmap


def _grid(t):
    """Build the requested grid through the builder."""
    import jax.numpy as jnp

    import hydraxmpm as hdx
    r = t["req"]
    dim = r["dim"]
    o = tuple(x / ONE for x in r["o"][:dim])
    e = tuple(x / ONE for x in r["e"][:dim])
    h = r["h"] / ONE
    b = hdx.SimBuilder()
    if r["arr"]:
        b.add_grid(origin=jnp.array(o), end=jnp.array(e), cell_size=h, padding=r["pad"])
    else:
        b.add_grid(origin=o, end=e, cell_size=h, padding=r["pad"])
    return b.grid_domains[0]


def _map(tr):
    import jax.numpy as jnp
    import numpy as np

    from hydraxmpm.grid.grid import GridArrays
    from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping

    from .sim import fx, fxs, pad3
    t = tr[0]
    r = t["req"]
    dim = r["dim"]
    g = _grid(t)
    a = GridArrays.new(g)
    n = [int(x) for x in g.grid_size]
    arrs = (a.mass_stack, a.moment_stack, a.moment_nt_stack, a.force_stack)
    org = [float(np.float32(x)) for x in g.origin]
    evs = [[[0, dim, t["kern"]], r["o"][:dim], r["e"][:dim], [r["h"], r["pad"]], fxs(g.origin), fxs(g.end), [fx(g.cell_size)], n, [int(g.num_cells)],
            list(g.position_mesh.shape), [int(x.size) for x in arrs] + [int(any(np.any(np.asarray(x)) for x in arrs))], fxs(g.position_stack)]]
    D = [1, dim, 9][t["rank"]]
    shp = [(), (dim,), (3, 3)][t["rank"]]
    kern = ["linear", "quadratic", "cubic"][t["kern"] - 1]
    m = ShapeFunctionMapping(kern, dim)
    nn = int(np.prod(n))
    co = np.array(t["fld"], dtype=np.float64) / ONE
    xs = np.asarray(g.position_stack, dtype=np.float64)
    field = np.stack([(co[4 * c] + xs @ co[4 * c + 1:4 * c + 1 + dim]).astype(np.float32) for c in range(D)], axis=-1)
    for t in tr:
        x = np.array(t["pts"], dtype=np.float64)[:, :dim] / ONE
        x = jnp.asarray(x.astype(np.float32))
        np_ = len(t["pts"])
        c = m.compute(x, origin=g.origin, grid_size=g.grid_size, inv_cell_size=g._inv_cell_size)
        mass = np.array([v / ONE for v in t["mass"]], dtype=np.float32)
        data = np.array([[v / ONE for v in d[:D]] for d in t["data"]], dtype=np.float32)
        jd = jnp.asarray(data).reshape((np_,) + shp)
        kw = {} if t["cut"] == 2 ** 18 else {"small_mass_cutoff": t["cut"] / ONE}
        sc = m.scatter_to_grid(c, jd, jnp.asarray(mass), nn, normalize=False)
        sn = m.scatter_to_grid(c, jd, jnp.asarray(mass), nn, **kw)
        ga = m.gather_from_grid(c, jnp.asarray(field).reshape((nn,) + shp))
        evs.append([[1, dim, t["kern"], np_, D], fxs(org), [fx(g.cell_size), t["cut"]], n, fxs(pad3(np.asarray(x))),
                    [int(v) for v in np.asarray(c.node_hashes)], fxs(c.shape_vals), fxs(c.shape_grads), fxs(pad3(np.asarray(c.rel_dist))),
                    [int(v) for v in np.asarray(c.point_ids)], fxs(mass), fxs(data), fxs(sc), fxs(sn),
                    [int(v) for v in t["fld"]], fxs(field), fxs(ga)])
    return evs


def map_check(c, plan, clauses, nsteps=2, need=()):
    """plan: list of (dimension, number of grids)."""
    from concurrent.futures import ThreadPoolExecutor
    pool.warm()
    with ThreadPoolExecutor(2) as ex:
        gens = list(ex.map(lambda a: quint.generate("gen_map", "gen_map_%d" % a[0], a[1], nsteps, c.seed * 1000 + 17, ["inv"]), plan))
    jobs = [t for g in gens for t in g]
    c.cover(states=sum(len(t) for t in jobs), transitions=sum(len(t) - 1 for t in jobs))
    c.lap("generate")
    res = pmap(_map, jobs)
    c.lap("code")
    evs, who = [], []
    for j, r in zip(jobs, res):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"behaviour": j, "trace": r.text})
            continue
        for e in r:
            if e[0][0] == 0 and not any(q.startswith("P29") for q in clauses):
                continue
            if e[0][0] == 1 and all(q.startswith("P29") for q in clauses):
                continue
            evs.append(e)
            who.append(j)
    bad, cnt = quint.validate("val_map", "val_map", evs)
    c.lap("validate")
    c.count({k: n for k, n in cnt.items() if any(k.startswith(p) for p in clauses)})
    c.cover(traces=len(jobs), states=len(evs), transitions=len(evs))
    for j in jobs[:3]:
        c.sample(dict(dim=j[0]["req"]["dim"], kernel=j[0]["kern"], nodes=j[0]["grid"]["n"], padding=j[0]["req"]["pad"], points=len(j[0]["pts"])))
    c.bad(bad, list(clauses), lambda ev: {"behaviour": who[ev]})
    c.require(need)
