"""Linear elasticity."""
from vf.laws import law_check


def check(c):
    law_check(c, [("gen_law_0", c.n(24, 300))], ["P18."], nsteps=c.n(6, 10), need=["P18.stress"])
