"""Step conformance: generate scenarios from gen_step, run them in the solver,
validate every recorded step with val_step."""
from . import pool, quint
from .pool import Raised, pmap


def _run(job):
    from . import sim
    scn, nsteps, jit = job
    return sim.run(scn, nsteps, jit)


def scenarios(c, plan, invariants=("inv",)):
    """plan: list of (profile, n) -> list of scenarios, in plan order."""
    from concurrent.futures import ThreadPoolExecutor
    pool.warm()
    with ThreadPoolExecutor(4) as ex:
        gens = list(ex.map(lambda a: quint.generate("gen_step", "gen_step_%d" % a[0], a[1], 1 if a[1] > 12 else 2, c.seed * 1000 + a[0], invariants), plan))
    out = []
    for trs in gens:
        for tr in trs:
            c.cover(states=len(tr), transitions=len(tr) - 1)
            out.append(tr[0]["scn"])
    return out


def describe(s):
    return {"dim": s["dim"], "scheme": s["scheme"], "kernels": [b["k"] for b in s["bodies"]], "points": [len(b["pts"]) for b in s["bodies"]],
            "h": s["h"] / 2**48, "dt": s["dt"] / 2**48, "alpha": s["alpha"] / 2**48, "forces": [(f["kind"], f["onGrid"], f["gm"], f["pm"]) for f in s["forces"]],
            "fsel": s["fsel"], "bsel": s["bsel"], "seed": s["seed"]}


def step_check(c, plan, clauses, nsteps=2, invariants=("inv",), need=()):
    """plan: list of (profile, n_scenarios). clauses: clause prefixes decided here."""
    scn = scenarios(c, plan, invariants)
    c.lap('generate')
    jobs = [(s, nsteps, t % 8 != 7) for t, s in enumerate(scn)]
    res = pmap(_run, jobs)
    c.lap('code')
    evs, who = [], []
    for j, r in zip(jobs, res):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"scenario": j[0], "trace": r.text})
            continue
        for i, e in enumerate(r):
            evs.append(e)
            who.append((j[0], i))
    bad, cnt = quint.validate("val_step", "val_step", evs)
    c.lap("validate")
    c.count({k: n for k, n in cnt.items() if any(k.startswith(p) for p in clauses)})
    c.cover(traces=len(jobs), states=len(evs) * 6, transitions=len(evs) * 5)
    for s, i in who[:2]:
        c.sample(dict(describe(s), step=i))
    c.bad(bad, list(clauses) + ["ANY."], lambda ev: {"scenario": who[ev][0], "step": who[ev][1]})
    c.require(need)
    return jobs, res


# ------------------------------------------------------------------ symmetries
def _run_pair(job):
    import numpy as np

    from . import sim
    a, b, t, nsteps, jit = job
    if t["kind"] == 1:
        nsteps = 1  # a moving system meets the grid elsewhere afterwards
    kept = [j for j in range(len(a["bodies"])) if t["kind"] != 5 or (t["keep"] >> j) & 1]
    ra = sim.run_states(a, nsteps, jit)
    rb = sim.run_states(a if t["kind"] == 5 else b, nsteps, jit, bodies=kept if t["kind"] == 5 else None)
    mid2 = 2 * a["org"][t["ax"]] + a["cells"][t["ax"]] * a["h"]
    dt32 = sim.fx(np.float32(a["dt"] / 2**48))
    hdr = [t["kind"]] + list(t["vec"]) + list(t["perm"]) + [t["ax"], t["k"], a["dim"], mid2, nsteps * dt32, max(b["h"], b["h1"]) if len(b["bodies"]) > 1 else b["h"], b["dt"], b["E"], len(kept)]
    f = [hdr]
    if t["kind"] == 9:  # body 0 came back as two
        n = len(b["bodies"]) - 1
        rb[0] = (rb[0][0] + rb[n][0], [x + y for x, y in zip(rb[0][1], rb[n][1])])
    for j in kept:
        na, fa = ra[j]
        nb, fb = rb[j]
        f += [[na, nb]] + fa + fb
    return f


def sym_check(c, plan, clauses, nsteps=2, need=()):
    """plan: list of (generator module suffix, n)."""
    from concurrent.futures import ThreadPoolExecutor
    pool.warm()
    with ThreadPoolExecutor(4) as ex:
        gens = list(ex.map(lambda a: quint.generate("gen_sym", "gen_sym_%s" % a[0], 2 * a[1], 2, c.seed * 1000 + 77, ["commutes"]), plan))
    jobs = []
    for (_, n), trs in zip(plan, gens):
        c.cover(states=sum(len(t) for t in trs), transitions=sum(len(t) - 1 for t in trs))
        # the same number of pairs of every kind
        kinds = {}
        for tr in trs:
            kinds.setdefault(tr[1]["t"]["kind"], []).append(tr)
        order = [q[i] for i in range(len(trs)) for q in kinds.values() if i < len(q)]
        for tr in order[:n]:
            jobs.append((tr[1]["scn"], tr[1]["vscn"], tr[1]["t"], nsteps, len(jobs) % 8 != 7))
    c.lap("generate")
    res = pmap(_run_pair, jobs)
    c.lap("code")
    evs, who = [], []
    for j, r in zip(jobs, res):
        if isinstance(r, Raised):
            c.violation(c.pid + ".raises", r.text.splitlines()[0], {"scenario": j[0], "transformed": j[1], "trace": r.text})
        else:
            evs.append(r)
            who.append(j)
    bad, cnt = quint.validate("val_sym", "val_sym", evs)
    c.lap("validate")
    c.count({k: n for k, n in cnt.items() if any(k.startswith(p) for p in clauses)})
    c.cover(traces=2 * len(jobs), states=2 * len(evs), transitions=2 * nsteps * len(evs))
    for j in who[:2]:
        c.sample(dict(describe(j[0]), transformation={k: v for k, v in j[2].items()}))
    c.bad(bad, list(clauses), lambda ev: {"scenario": who[ev][0], "transformed": who[ev][1], "t": who[ev][2]})
    c.require(need, len(need) // 3)
