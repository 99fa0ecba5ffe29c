"""mu(I) rheology."""
from vf.laws import law_check


def check(c):
    law_check(c, [("gen_law_2", c.n(30, 300))], ["P22."], nsteps=c.n(6, 10), need=["P22.pressure", "P22.shear", "P22.vacuum", "P22.frictionbound"])
