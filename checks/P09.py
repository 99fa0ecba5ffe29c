"""Symmetries of a step."""
from vf.steps import sym_check


def check(c):
    sym_check(c, [("frame", c.n(18, 120)), ("order", c.n(10, 80))], ["P09."], nsteps=c.n(1, 3),
              need=["P09.shift", "P09.axes", "P09.mirror", "P09.units", "P09.order", "P09.split", "P09.two"])
