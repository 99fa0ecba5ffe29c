"""Saved simulations load back exactly."""
from vf.runs import run_check


def check(c):
    run_check(c, "gen_run_io", c.n(21, 200), c.n(14, 22), ["P27."], [0, 9, 4],
              need=["P27.exact", "P27.solver", "P27.refuses", "P27.accepts", "P27.outside", "P27.records", "P27.continue", "P27.meta", "P27.untouched"])
