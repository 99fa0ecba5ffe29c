"""Bodies on different grids do not influence each other."""
from vf.steps import sym_check


def check(c):
    sym_check(c, [("iso", c.n(10, 120))], ["P10."], nsteps=c.n(2, 4), need=["P10.isolated"])
