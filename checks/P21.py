"""Newtonian fluid."""
from vf.laws import law_check


def check(c):
    law_check(c, [("gen_law_1", c.n(24, 300))], ["P21."], nsteps=c.n(6, 10), need=["P21.pressure", "P21.viscous", "P21.notension"])
