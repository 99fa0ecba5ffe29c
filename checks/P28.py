"""Stepping is deterministic bookkeeping."""
from vf.runs import run_check


def check(c):
    run_check(c, "gen_run_step", c.n(21, 200), c.n(14, 22), ["P28."], [0, 9, 4],
              need=["P28.step", "P28.time", "P28.dt", "P28.same", "P28.split", "P28.modes", "P28.runs"])
