"""Exporting views with the real visualizers and reading them back."""
import glob
import os
import re
import shutil
import tempfile

from . import pool, quint
from .quint import ONE
from .pool import Raised, pmap

SCALARS = ["mass_stack", "volume_stack", "density_stack", "pressure_stack", "density_ref_stack", "q_stack"]
VECTORS = ["velocity_stack", "force_stack", "position_stack"]
TENSORS = ["stress_stack", "L_stack", "F_stack"]


def _f32(x, *shape):
    import numpy as np
    return (np.array(x, dtype=np.float64) / ONE).astype(np.float32).reshape(shape)


class Stream:
    """Stands in for the viewer: records what is sent to it."""

    def __init__(self, mod):
        self.rr = mod.rr
        self.sent, self.times, self.saves, self.calls = [], {}, 0, 0
        self.old = {}
        for n, f in dict(init=self._none, spawn=self._none, serve=self._none, serve_grpc=self._none, save=self._save, log=self._log, set_time=self._time, send_blueprint=self._none).items():
            self.old[n] = getattr(self.rr, n, None)
            setattr(self.rr, n, f)

    def close(self):
        for n, f in self.old.items():
            if f is None:
                delattr(self.rr, n)
            else:
                setattr(self.rr, n, f)

    def _none(self, *a, **k):
        pass

    def _save(self, *a, **k):
        self.saves += 1

    def _log(self, path, obj, *a, **k):
        self.sent.append((str(path), obj))

    def _time(self, name, **k):
        for q, x in k.items():
            if x is not None:
                self.times[q] = x

    def take(self, *kinds):
        got = [o for _, o in self.sent if type(o).__name__ in kinds]
        self.sent = []
        return got


def _col(batch):
    """A component of what was sent, as an array."""
    import numpy as np
    return np.array(batch.as_arrow_array().to_pylist(), dtype=np.float64)


def _read(files):
    import pyvista as pv
    return [pv.read(f) for f in files]


def _props(v, mp):
    """(name, values) of the property the view asks for."""
    import numpy as np
    p = v["prop"]
    if p == 0:
        return None, None
    if p == 1:
        return ["no_such_property", "pressure_of_nobody"][v["which"] % 2], None
    names = [SCALARS, VECTORS, TENSORS][p - 2]
    n = names[v["which"] % len(names)]
    return n, np.asarray(getattr(mp, n), dtype=np.float64)


def _view(tr):
    import contextlib
    import io

    root = tempfile.mkdtemp(prefix="vf_view_")
    cwd = os.getcwd()
    try:
        os.makedirs(os.path.join(root, "work"))
        os.chdir(os.path.join(root, "work"))
        with contextlib.redirect_stdout(io.StringIO()):
            return _views(tr, root)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def _views(tr, root):
    import jax.numpy as jnp
    import numpy as np

    import hydraxmpm as hdx
    import hydraxmpm.common.rerun as rmod

    from .sdfs import log_shapes, make
    from .sim import digest, fx, fxs, pad3
    dim = tr[0]["dim"]
    seed = tr[0]["seed"]
    work = os.path.join(root, "work")
    where = [os.path.join(work, "out"), os.path.join(work, "deep", "er")][seed % 2]
    if seed % 3 == 0:
        vtk = hdx.VTKVisualizer(output_dir=where)
    elif seed % 3 == 1:
        vtk = hdx.VTKVisualizer(output_dir=os.path.relpath(where, work))
    else:
        vtk = hdx.VTKVisualizer(output_dir=os.path.relpath(where, work), relative_dir=os.path.join(work, "script.py"))
    st = Stream(rmod)
    evs = []
    written = {}    # (label, kind, step) -> files and their content
    bad = [0, 1, 0]

    def content(f):
        with open(f, "rb") as h:
            return digest(np.frombuffer(h.read(), dtype=np.uint8))

    def files():
        return {f: content(f) for f in glob.glob(os.path.join(root, "**", "*"), recursive=True) if os.path.isfile(f)}

    def export(key, call):
        """Call; the files it wrote."""
        before = files()
        for f in before:
            os.utime(f, (1, 1))
        call()
        after = files()
        new = [f for f in after if f not in before or os.stat(f).st_mtime > 2]
        bad[2] += sum(not f.startswith(where + os.sep) for f in new)
        for k, fs in written.items():
            # an earlier view under another name stays as it was
            if k != key:
                bad[0] += sum(after.get(f) != d for f, d in fs.items())
                bad[1] &= int(not set(fs) & set(new))
        written[key] = {f: after[f] for f in new}
        return new

    def number(f):
        m = re.findall(r"\d+", os.path.basename(f))
        return [int(m[-1]) * ONE] if m else []
    try:
        vis = [hdx.RerunVisualizer(mode=["spawn", "save", "none"][m], is_3d=dim == 3) for m in tr[0]["mode"]]
        rer = vis[-1]
        for t in tr:
            v = t["v"]
            label = ["grains", "water", "wall_1"][v["label"]]
            tool, kind = v["tool"], v["kind"]
            timed, stepped = v["time"] >= 0, v["step"] >= 0
            time = v["time"] / ONE
            kw = {}
            if tool == 0:
                if timed:
                    kw["time"] = time
                if stepped:
                    kw["step"] = v["step"]
            st.times = {}
            if tool == 1 and timed and stepped:
                rer.log_time(v["step"], time)
            steps = [int(st.times["sequence"]) * ONE] if "sequence" in st.times else []
            times = fxs([x for q, x in st.times.items() if q in ("timestamp", "duration")])
            if tool == 1:
                timed = stepped = timed and stepped
            lab = {"label": label} if seed % 5 or kind == 2 else {}
            name = label if lab else "?"
            key = (name, kind if kind != 2 else 0, v["step"] if stepped else 0)
            if kind == 0:
                n = len(v["pts"])
                d = _f32(v["data"], n, 9)
                mp = hdx.MaterialPointState.create(
                    position_stack=jnp.asarray(_f32(v["pts"], n, 3)[:, :dim]), mass_stack=jnp.asarray(_f32(v["mass"], n)), volume_stack=jnp.asarray(_f32(v["vol"], n)),
                    volume0_stack=jnp.asarray(_f32(v["vol0"], n)), velocity_stack=jnp.asarray(d[:, :dim]), force_stack=jnp.asarray(d[:, 3:3 + dim]),
                    stress_stack=jnp.asarray(d.reshape(n, 3, 3)), L_stack=jnp.asarray(d[:, ::-1].reshape(n, 3, 3)), F_stack=jnp.asarray(d.reshape(n, 3, 3) / 16 + np.eye(3)))
                prop, data = _props(v, mp)
                sc = v["scale"] / ONE
                given = {} if sc == 1 else {"scale_radius": sc}
                if not (prop == "velocity_stack" and v["which"] % 2):
                    given["property_name"] = prop
                lims = v["lims"] if tool == 1 else [0, 0, 0]
                pout, rout, x = [], [], np.zeros((0, 3))
                if tool == 0:
                    new = export(key, lambda: vtk.log_particles(mp, **lab, **given, **kw))
                    ms = _read(new)
                    if len(ms) == 1:
                        m = ms[0]
                        x, rout = np.asarray(m.points), np.asarray(m.point_data["Radius"])
                        rest = [q for q in m.point_data.keys() if q != "Radius"]
                        pout = fxs(m.point_data[rest[0]]) if rest else []
                        times = fxs(m.field_data["TimeValue"]) if "TimeValue" in m.field_data else []
                        steps = number(new[0])
                else:
                    shade = []

                    def cmap(q):
                        shade.append(np.array(q, dtype=np.float64))
                        return np.stack([q, q, q, np.ones_like(q)], axis=-1)
                    if lims[0] in (1, 2):
                        given.update(v_min=lims[1] / ONE)
                    if lims[0] in (1, 3):
                        given.update(v_max=lims[2] / ONE)
                    if prop is None:
                        given.pop("property_name", None)
                        given["color"] = [255, 0, 0]
                    rer.log_material_points(mp, cmap=cmap, **lab, **given)
                    got = st.take("Points2D", "Points3D")
                    if len(got) == 1:
                        x, rout = _col(got[0].positions), _col(got[0].radii)
                        pout = fxs(shade[0]) if shade else []
                evs.append([[0, dim, tool, n, v["prop"], int(timed), int(stepped), lims[0]],
                            [fx(sc), fx(time) if timed else 0, v["step"] * ONE if stepped else 0] + list(lims[1:]),
                            fxs(pad3(np.asarray(mp.position_stack))), fxs(mp.volume0_stack), [] if data is None else fxs(data),
                            fxs(pad3(x)) if len(x) else [], fxs(rout), pout, times, steps, [len(x)]])
            elif kind == 1:
                lo, hi = [tuple(float(q) for q in _f32(v[k], 3)[:dim]) for k in ("lo", "hi")]
                h = v["h"] / ONE
                a = b = [0, 0, 0]
                if tool == 0:
                    new = export((name, 1, None), lambda: vtk.log_static_domain(lo, hi, h, **lab))
                    ms = _read(new)
                    n = len(ms)
                    if n == 1:
                        q = ms[0].bounds
                        a, b = fxs([q[0], q[2], q[4]]), fxs([q[1], q[3], q[5]])
                else:
                    rer.log_static_domain(origin=lo, end=hi, cell_size=h, **lab)
                    got = st.take("Boxes2D", "Boxes3D")
                    n = len(got)
                    if n == 1:
                        c, s = _col(got[0].centers)[0], _col(got[0].half_sizes)[0]
                        a, b = fxs(pad3((c - s)[None])), fxs(pad3((c + s)[None]))
                evs.append([[1, dim, tool, n], fxs(pad3(np.array(lo)[None])), fxs(pad3(np.array(hi)[None])), [fx(h)], a, b])
            else:
                o = v["o"]
                logic, skw = make(o)
                state = logic.create_state(**skw)
                lo, hi = [_f32(v[k], 3)[:dim] for k in ("lo", "hi")]
                window = dict(start=tuple(float(q) for q in lo), end=tuple(float(q) for q in hi), resolution=v["res"])
                x, nrm, edges, drawn = np.zeros((0, 3)), [], [], 0
                if tool == 0:
                    new = export(key, lambda: vtk.log_sdf(logic, state, **window, **lab, **kw))
                    ms = _read(new)
                    if len(ms) == 1:
                        m = ms[0]
                        drawn = 1
                        x = np.asarray(m.points, dtype=np.float64)
                        if dim == 2:
                            p = 0
                            ln = np.asarray(m.lines)
                            while p < len(ln):
                                q = ln[p + 1:p + 1 + ln[p]]
                                edges += list(zip(q[:-1], q[1:]))
                                p += 1 + ln[p]
                        else:
                            fc = np.asarray(m.faces).reshape(-1, 4)[:, 1:]
                            edges = [(q[i], q[(i + 1) % 3]) for q in fc for i in range(3)]
                            nrm = np.asarray(m.point_data["normals"]) if "normals" in m.point_data else []
                        times = fxs(m.field_data["TimeValue"]) if "TimeValue" in m.field_data else []
                        steps = number(new[0])
                else:
                    rer.log_sdf(logic, state, static=v["still"], **window, **lab)
                    got = st.take("LineStrips2D", "Mesh3D")
                    if len(got) == 1 and dim == 2:
                        xs = []
                        for s in got[0].strips.as_arrow_array().to_pylist():
                            k0 = len(xs)
                            xs += s
                            edges += [(k0 + i, k0 + i + 1) for i in range(len(s) - 1)]
                        x = pad3(np.array(xs)) if xs else x
                        drawn = 1
                    elif len(got) == 1:
                        x = _col(got[0].vertex_positions)
                        nrm = _col(got[0].vertex_normals)
                        fc = np.array(got[0].triangle_indices.as_arrow_array().to_pylist())
                        edges = [(q[i], q[(i + 1) % 3]) for q in fc for i in range(3)]
                        drawn = 1
                # the longest ones
                edges = sorted(edges, key=lambda e: -np.abs(x[e[0]] - x[e[1]]).sum())[:60]
                # the object at the pose it has
                com, rot = np.asarray(skw["center_of_mass"], dtype=np.float64), np.asarray(skw["rotation"], dtype=np.float64)
                w = [0, 0, 0]
                evs.append([[2, dim, int(o["comp"]), len(o["shapes"]), tool, drawn, int(timed), int(stepped)]] + log_shapes(o) + [
                    fxs(pad3(com[None])), fxs(rot.reshape(-1)), w, w, fxs(pad3(lo[None])), fxs(pad3(hi[None])),
                    [fx(time) if timed else 0, v["step"] * ONE if stepped else 0], [v["res"]], [q for p in v["srf"] for q in p],
                    fxs(x), fxs(nrm), [int(q) for e in edges for q in e], times, steps])
        evs.append([[3, bad[0], bad[1], bad[2], sum(m == 1 for m in tr[0]["mode"]), st.saves]])
    finally:
        st.close()
    return evs


def view_check(c, plan, nsteps, clauses, need=()):
    """plan: list of (dimension, number of histories)."""
    from concurrent.futures import ThreadPoolExecutor
    pool.warm()
    with ThreadPoolExecutor(2) as ex:
        gens = list(ex.map(lambda a: quint.generate("gen_view", "gen_view_%d" % a[0], a[1], nsteps, c.seed * 1000 + 31, ["inv"]), plan))
    jobs = [t for g in gens for t in g]
    c.cover(states=sum(len(t) for t in jobs), transitions=sum(len(t) - 1 for t in jobs))
    c.lap("generate")
    evs, who = [], []
    for j, r in zip(jobs, pmap(_view, jobs)):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"behaviour": j, "trace": r.text})
            continue
        for k, e in enumerate(r):
            evs.append(e)
            who.append(j[min(k, len(j) - 1)])
    c.lap("code")
    bad, cnt = quint.validate("val_view", "val_view", evs)
    c.lap("validate")
    c.count(cnt)
    c.cover(traces=len(jobs), states=len(evs), transitions=len(evs))
    for j in jobs[:3]:
        c.sample(dict(dim=j[0]["dim"], views=[dict(kind=t["v"]["kind"], tool=t["v"]["tool"], step=t["v"]["step"]) for t in j]))
    c.bad(bad, list(clauses), lambda ev: {"view": who[ev]})
    c.require(need)
